//! C22: the policy document codec, through the hook.
use crate::gen;
use crate::json::{self, s, Break, Style, J};
use crate::oracle;
use crate::runner::{Obs, Prop};
use cloud_storage_signature::vp_hooks as codec;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

const FIELDS: [&str; 17] = [
    "acl", "bucket", "Cache-Control", "Content-Disposition", "Content-Encoding", "Content-Type", "Expires", "file", "key", "policy",
    "success_action_redirect", "success_action_status", "x-goog-algorithm", "x-goog-credential", "x-goog-custom-time", "x-goog-date", "x-goog-signature",
];

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cond {
    /// field, value, spelled as an object
    Eq(String, String, bool),
    StartsWith(String, String),
    Range(u64, u64),
}

impl Cond {
    fn input(&self) -> J {
        match self {
            Cond::Eq(f, v, true) => J::Obj(vec![(f.clone(), s(v))]),
            _ => self.normal(),
        }
    }
    fn normal(&self) -> J {
        match self {
            Cond::Eq(f, v, _) => J::Arr(vec![s("eq"), s(format!("${f}")), s(v)]),
            Cond::StartsWith(f, v) => J::Arr(vec![s("starts-with"), s(format!("${f}")), s(v)]),
            Cond::Range(a, b) => J::Arr(vec![s("content-length-range"), J::Num(a.to_string()), J::Num(b.to_string())]),
        }
    }
    fn key(&self) -> Cond {
        match self {
            Cond::Eq(f, v, _) => Cond::Eq(f.clone(), v.clone(), false),
            c => c.clone(),
        }
    }
}

/// Seconds since 1970, spelled with an offset in minutes and perhaps a fraction.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Exp {
    pub at: i64,
    pub offset: i64,
    pub fraction: String,
    pub zulu: bool,
}

impl Exp {
    fn text(&self) -> String {
        let local = oracle::fmt_rfc3339(self.at + self.offset * 60);
        let (sign, o) = if self.offset < 0 { ('-', -self.offset) } else { ('+', self.offset) };
        let z = if self.zulu && self.offset == 0 { "Z".to_string() } else { format!("{sign}{:02}:{:02}", o / 60, o % 60) };
        format!("{}{}{z}", local.trim_end_matches('Z'), self.fraction)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wrong {
    /// a condition nobody documents, at this place
    Condition(J, usize),
    /// the member's value
    Conditions(J),
    Expiration(J),
    MissingConditions,
    MissingExpiration,
    Root(J),
    Broken(Break),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    None,
    /// only the spelling: eq as object or array, offset, style
    Spelling(i64, Style),
    /// exchange two conditions
    Swap(usize, usize),
    Replace(usize, Cond),
    Remove(usize),
    Insert(usize, Cond),
    Expiration(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CodecCase {
    pub conds: Vec<Cond>,
    pub exp: Exp,
    pub exp_first: bool,
    pub style: Style,
    pub wrong: Option<Wrong>,
    pub other: Change,
}

fn field() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(FIELDS.to_vec()).prop_map(String::from),
        2 => gen::meta_name().prop_map(|n| format!("x-goog-meta-{n}")),
        1 => select(vec!["x-goog-meta-$", "x-goog-meta-Content-Length", "x-goog-meta-x-goog-meta-", "x-goog-meta--"]).prop_map(String::from),
    ]
    .boxed()
}

fn cond() -> BoxedStrategy<Cond> {
    prop_oneof![
        4 => (field(), gen::json_text(), any::<bool>()).prop_map(|(f, v, o)| Cond::Eq(f, v, o)),
        2 => (field(), gen::json_text()).prop_map(|(f, v)| Cond::StartsWith(f, v)),
        2 => (gen::u64s(), gen::u64s()).prop_map(|(a, b)| Cond::Range(a, b)),
    ]
    .boxed()
}

const MIN: i64 = -62_167_219_200;

fn instant() -> BoxedStrategy<i64> {
    prop_oneof![
        3 => gen::secs(),
        1 => MIN..=gen::MAX_S,
        1 => select(vec![MIN, MIN + 1, -1, 0, gen::MAX_S, gen::MAX_S - 1, -62_135_596_800, -62_135_596_801]),
    ]
    .boxed()
}

fn exp() -> BoxedStrategy<Exp> {
    let offset = prop_oneof![4 => Just(0i64), 2 => select(vec![540i64, -480, 330, -1, 1, 1439, -1439, 60, -60]), 1 => -1439i64..=1439];
    (instant(), offset, prop_oneof![4 => Just(String::new()), 1 => select(vec![".0", ".5", ".999999999", ".123", ".000000001"]).prop_map(String::from)], any::<bool>())
        .prop_map(|(at, offset, fraction, zulu)| {
            // the local date has to have a four digit year
            let local = at + offset * 60;
            let offset = if (MIN..=gen::MAX_S).contains(&local) { offset } else { 0 };
            Exp { at, offset, fraction, zulu }
        })
        .boxed()
}

fn bad_condition() -> BoxedStrategy<J> {
    let bad_field = || {
        prop_oneof![
            3 => select(vec!["", "Key", "BUCKET", "content-type", "cache-control", "Content-MD5", "x-goog-meta-", "x-goog-meta", "X-Goog-Meta-a", "X-Goog-Date", "x-goog-if-generation-match", "$key", " key", "key ", "expires",
                "x-ignore-a", "success-action-status", "x-amz-date", "filename", "Content-Length", "content-length-range", "key\u{0}"]).prop_map(String::from),
            1 => gen::text().prop_filter("known field", |t| !FIELDS.contains(&t.as_str()) && !t.starts_with("x-goog-meta-")),
        ]
    };
    let op = || select(vec!["eq", "starts-with"]);
    let bad_op = prop_oneof![
        select(vec!["EQ", "Eq", "starts_with", "startsWith", "starts-With", "", "=", "ne", "in", "eq ", " eq", "content-length", "ends-with", "not-eq", "$eq", "content-length-range "]).prop_map(String::from),
        gen::text().prop_filter("operator", |t| !["eq", "starts-with", "content-length-range"].contains(&t.as_str())),
    ];
    let not_string = || json::any_value().prop_map(|j| if matches!(j, J::Str(_)) { J::Null } else { j });
    let bad_number = || {
        prop_oneof![
            select(vec!["-1", "1.5", "18446744073709551616", "1e3", "1.0", "123456789012345678901234567890", "-9223372036854775808"]).prop_map(|t| J::Num(t.into())),
            select(vec!["1", "", "0"]).prop_map(s),
            Just(J::Null),
            Just(J::Bool(true)),
            Just(J::Arr(vec![])),
        ]
    };
    let n = || gen::u64s().prop_map(|n| J::Num(n.to_string()));
    let v = || gen::json_text().prop_map(J::Str);
    prop_oneof![
        2 => (op(), bad_field(), v()).prop_map(|(o, f, v)| J::Arr(vec![s(o), s(format!("${f}")), v])),
        1 => (op(), field(), v()).prop_map(|(o, f, v)| J::Arr(vec![s(o), s(f), v])),
        1 => (op(), field(), v(), select(vec!["$$", "＄", " $", "\\$", "@"])).prop_map(|(o, f, v, p)| J::Arr(vec![s(o), s(format!("{p}{f}")), v])),
        1 => (bad_op, field(), v()).prop_map(|(o, f, v)| J::Arr(vec![s(o), s(format!("${f}")), v])),
        1 => (op(), field(), not_string()).prop_map(|(o, f, v)| J::Arr(vec![s(o), s(format!("${f}")), v])),
        1 => (op(), not_string(), v()).prop_map(|(o, f, v)| J::Arr(vec![s(o), f, v])),
        1 => (not_string(), field(), v()).prop_map(|(o, f, v)| J::Arr(vec![o, s(format!("${f}")), v])),
        // wrong number of elements
        1 => (cond(), 0usize..3).prop_map(|(c, n)| { let J::Arr(mut a) = c.normal() else { unreachable!() }; a.truncate(n); J::Arr(a) }),
        1 => (cond(), json::any_value()).prop_map(|(c, x)| { let J::Arr(mut a) = c.normal() else { unreachable!() }; a.push(x); J::Arr(a) }),
        1 => (bad_number(), n(), any::<bool>()).prop_map(|(b, n, f)| J::Arr(if f { vec![s("content-length-range"), b, n] } else { vec![s("content-length-range"), n, b] })),
        1 => (select(vec!["content-length-ranges", "content_length_range", "Content-Length-Range"]), n(), n()).prop_map(|(o, a, b)| J::Arr(vec![s(o), a, b])),
        1 => (bad_field(), v()).prop_map(|(f, v)| J::Obj(vec![(f, v)])),
        1 => (field(), v()).prop_map(|(f, v)| J::Obj(vec![(format!("${f}"), v)])),
        1 => (field(), not_string()).prop_map(|(f, v)| J::Obj(vec![(f, v)])),
        1 => (vec(field(), 2..4), v()).prop_map(|(f, v)| J::Obj(f.into_iter().map(|f| (f, v.clone())).collect())),
        1 => Just(J::Obj(vec![])),
        1 => json::any_value().prop_filter("container", |j| !matches!(j, J::Arr(_) | J::Obj(_))),
    ]
    .boxed()
}

fn bad_expiration() -> BoxedStrategy<J> {
    prop_oneof![
        4 => select(vec!["", "20200616T111111Z", "2020-06-16", "2020-06-16T11:11:11", "2020-13-01T00:00:00Z", "2020-00-01T00:00:00Z", "2020-01-00T00:00:00Z", "2020-02-30T00:00:00Z", "2021-02-29T00:00:00Z", "1900-02-29T00:00:00Z",
            "2020-01-01T25:00:00Z", "2020-01-01T00:60:00Z", "2020-01-01T00:00:61Z", "10000-01-01T00:00:00Z", "2020-01-01T00:00Z", "2020-1-1T00:00:00Z", "2020-01-01T00:00:00+0900x", "2020-01-01T00:00:00Zx", "x2020-01-01T00:00:00Z",
            "2020-01-01T00:00:00.Z", "now", "1577836800", "9999-12-31T23:59:59-00:01", "0000-01-01T00:00:00+00:01", "2020/01/01T00:00:00Z", "Wed, 01 Jan 2020 00:00:00 GMT", "2020-01-01T00:00:00+99:00", "日本語",
            "2020-06-16T11:11:11ZZ", "2020-06-16T11:11:11 UTC"]).prop_map(s),
        // one character of a good one is another, and none that may stand there
        2 => (select(vec!["2020-06-16T11:11:11Z", "2020-06-16T11:11:11.5Z", "2020-06-16T11:11:11+09:00"]), any::<prop::sample::Index>(), prop_oneof![2 => 0x20u8..0x7f, 1 => Just(b' ')]).prop_filter_map("spoilt", |(t, i, c)| {
            let mut b = t.as_bytes().to_vec();
            let i = i.index(b.len());
            let harmless = match b[i] {
                b'0'..=b'9' => c.is_ascii_digit(),
                b'T' => c == b'T' || c == b't' || c == b' ',
                b'Z' => c == b'Z' || c == b'z',
                b'+' | b'-' if i > 10 => c == b'+' || c == b'-',
                x => c == x,
            };
            // a dot or a point of an offset in place of another
            if harmless || i > 18 && c.is_ascii_digit() {
                return None;
            }
            b[i] = c;
            Some(s(String::from_utf8(b).unwrap()))
        }),
        1 => json::any_value().prop_map(|j| if matches!(j, J::Str(_)) { J::Null } else { j }),
        1 => gen::text().prop_filter("date", |t| t.len() < 20).prop_map(J::Str),
    ]
    .boxed()
}

fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        1 => Just(Change::None),
        2 => (select(vec![0i64, 60, -90, 540, -720]), json::style()).prop_map(|(o, s)| Change::Spelling(o, s)),
        1 => (0usize..8, 0usize..8).prop_map(|(a, b)| Change::Swap(a, b)),
        2 => (0usize..8, cond()).prop_map(|(i, c)| Change::Replace(i, c)),
        1 => (0usize..8).prop_map(Change::Remove),
        1 => (0usize..8, cond()).prop_map(|(i, c)| Change::Insert(i, c)),
        1 => select(vec![1i64, -1, 60, 3600, -86_400]).prop_map(Change::Expiration),
    ]
    .boxed()
}

impl CodecCase {
    fn document(conds: Vec<J>, exp: J, exp_first: bool) -> J {
        let mut m = vec![("conditions".to_string(), J::Arr(conds)), ("expiration".to_string(), exp)];
        if exp_first {
            m.swap(0, 1);
        }
        J::Obj(m)
    }
    fn text(&self) -> String {
        let mut conds: Vec<J> = self.conds.iter().map(Cond::input).collect();
        if let Some(Wrong::Condition(j, i)) = &self.wrong {
            conds.insert(i % (conds.len() + 1), j.clone());
        }
        let mut doc = Self::document(conds, s(self.exp.text()), self.exp_first);
        let J::Obj(m) = &mut doc else { unreachable!() };
        match &self.wrong {
            Some(Wrong::Conditions(j)) => m.iter_mut().find(|e| e.0 == "conditions").unwrap().1 = j.clone(),
            Some(Wrong::Expiration(j)) => m.iter_mut().find(|e| e.0 == "expiration").unwrap().1 = j.clone(),
            Some(Wrong::MissingConditions) => m.retain(|e| e.0 != "conditions"),
            Some(Wrong::MissingExpiration) => m.retain(|e| e.0 != "expiration"),
            Some(Wrong::Root(j)) => return j.write(&self.style),
            Some(Wrong::Broken(b)) => return b.apply(&doc.write(&self.style)),
            _ => {}
        }
        doc.write(&self.style)
    }
}

fn shape(t: &str) -> Result<serde_json::Value, String> {
    serde_json::from_str(t).map_err(|e| format!("{t:?} is not JSON: {e}"))
}

pub struct C22;
impl Prop for C22 {
    type Case = CodecCase;
    const ID: &'static str = "C22";
    const RULE: &'static str = "A policy document from an independent writer, over all documented fields, operators and bounds, any spelling of strings and expirations; or one with an undocumented condition or expiration, which must be rejected; and a second document, changed or spelled differently, which must compare equal exactly if it means the same. Non-trivial: it has a condition.";
    const ASSUMPTIONS: &'static [&'static str] = &["leap seconds, further top-level members, repeated members, and the array spelling of the whole document are left unspecified"];
    const QUICK: u32 = 1_200_000;
    fn strategy() -> BoxedStrategy<CodecCase> {
        let wrong = prop_oneof![
            8 => (bad_condition(), 0usize..8).prop_map(|(j, i)| Wrong::Condition(j, i)),
            1 => json::any_value().prop_map(|j| Wrong::Conditions(if matches!(j, J::Arr(_)) { J::Null } else { j })),
            3 => bad_expiration().prop_map(Wrong::Expiration),
            1 => Just(Wrong::MissingConditions),
            1 => Just(Wrong::MissingExpiration),
            1 => json::any_value().prop_map(|j| Wrong::Root(if matches!(j, J::Obj(_) | J::Arr(_)) { J::Null } else { j })),
            2 => json::breaks().prop_map(Wrong::Broken),
        ];
        (vec(cond(), 0..8), exp(), any::<bool>(), json::style(), prop::option::weighted(0.4, wrong), change())
            .prop_map(|(conds, exp, exp_first, style, wrong, other)| CodecCase { conds, exp, exp_first, style, wrong, other })
            .boxed()
    }
    fn check(c: &CodecCase, obs: &mut Obs) -> Result<(), String> {
        let text = c.text();
        obs.nontrivial_if(!c.conds.is_empty() || c.wrong.is_some());
        obs.class(match &c.wrong {
            None => "acceptable",
            Some(Wrong::Condition(..)) => "undocumented condition",
            Some(Wrong::Expiration(_)) => "wrong expiration",
            Some(_) => "other wrong document",
        });
        let r = codec::policy_document_reserialize(&text);
        if let Some(w) = &c.wrong {
            return match r {
                Ok(o) => Err(format!("{w:?} accepted: {text} became {o}")),
                Err(_) => Ok(()),
            };
        }
        let out = r.map_err(|e| format!("rejected ({e}): {text}"))?;
        let normal = |conds: &[Cond], at: i64| CodecCase::document(conds.iter().map(Cond::normal).collect(), s(oracle::fmt_rfc3339(at)), false);
        let plain = Style(vec![]);
        let want = normal(&c.conds, c.exp.at).write(&plain);
        if shape(&out)? != shape(&want)? {
            return Err(format!("{text} became {out}, expected {want}"));
        }
        let again = codec::policy_document_reserialize(&out).map_err(|e| format!("its own output is rejected ({e}): {out}"))?;
        if again != out {
            return Err(format!("{out} became {again} the second time"));
        }
        if !codec::policy_document_eq(&text, &out)? {
            return Err(format!("{text} and its output {out} are not equal"));
        }
        // another document
        let mut o = c.clone();
        let n = o.conds.len();
        match &c.other {
            Change::None => {}
            Change::Spelling(off, st) => {
                let local = o.exp.at + off * 60;
                if (MIN..=gen::MAX_S).contains(&local) {
                    o.exp.offset = *off;
                }
                o.style = st.clone();
                o.exp_first = !o.exp_first;
                for c in &mut o.conds {
                    if let Cond::Eq(_, _, b) = c {
                        *b = !*b;
                    }
                }
            }
            Change::Swap(a, b) if n > 0 => o.conds.swap(a % n, b % n),
            Change::Replace(i, x) if n > 0 => o.conds[i % n] = x.clone(),
            Change::Remove(i) if n > 0 => {
                o.conds.remove(i % n);
            }
            Change::Insert(i, x) => o.conds.insert(i % (n + 1), x.clone()),
            Change::Expiration(d) if (MIN..=gen::MAX_S).contains(&(o.exp.at + d)) => {
                o.exp.at += d;
                o.exp.offset = 0;
            }
            _ => {}
        }
        let key = |c: &CodecCase| (c.conds.iter().map(Cond::key).collect::<Vec<_>>(), c.exp.at);
        let same = key(c) == key(&o);
        obs.class(if same { "same document compared" } else { "different document compared" });
        let other = o.text();
        let eq = codec::policy_document_eq(&text, &other).map_err(|e| format!("rejected ({e}): {other}"))?;
        if eq != same {
            return Err(format!("{text} and {other} compare {}", if eq { "equal" } else { "unequal" }));
        }
        Ok(())
    }
}

