//! JSON text in any spelling, written independently of serde_json.
use crate::gen;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum J {
    Null,
    Bool(bool),
    /// digits as written
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
    /// spliced in as it is
    Verbatim(String),
}

pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}

/// Decides whitespace and escapes; used in turn, from the start again at the end. Empty: compact, minimal escapes.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Style(pub Vec<u8>);

pub fn style() -> BoxedStrategy<Style> {
    prop_oneof![
        2 => Just(Style(vec![])),
        4 => vec(any::<u8>(), 1..40).prop_map(Style),
        // all escaped
        1 => vec(6u8..8, 1..5).prop_map(Style),
    ]
    .boxed()
}

struct W<'a> {
    out: String,
    style: &'a [u8],
    at: usize,
}

impl W<'_> {
    fn next(&mut self) -> u8 {
        if self.style.is_empty() {
            return 0;
        }
        self.at += 1;
        self.style[(self.at - 1) % self.style.len()]
    }
    fn ws(&mut self) {
        let b = self.next();
        self.out += match b % 16 {
            8 => " ",
            9 => "\n",
            10 => "\t",
            11 => "\r\n",
            12 => "  \n\t ",
            13 => "\r",
            _ => "",
        };
    }
    fn string(&mut self, t: &str) {
        self.out.push('"');
        for ch in t.chars() {
            let b = self.next() % 8;
            let short = match ch {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                _ => None,
            };
            let must = ch < ' ' || ch == '"' || ch == '\\';
            if b >= 6 || (must && short.is_none()) {
                for u in ch.encode_utf16(&mut [0; 2]) {
                    self.out += &if b % 2 == 0 { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
                }
            } else if let (Some(e), true) = (short, must || b == 5) {
                self.out.push('\\');
                self.out.push(e);
            } else {
                self.out.push(ch);
            }
        }
        self.out.push('"');
    }
    fn value(&mut self, j: &J) {
        match j {
            J::Null => self.out += "null",
            J::Bool(b) => self.out += if *b { "true" } else { "false" },
            J::Num(n) => self.out += n,
            J::Str(t) => self.string(t),
            J::Verbatim(t) => self.out += t,
            J::Arr(v) => {
                self.out.push('[');
                self.ws();
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.ws();
                    }
                    self.value(x);
                    self.ws();
                }
                self.out.push(']');
            }
            J::Obj(v) => {
                self.out.push('{');
                self.ws();
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.ws();
                    }
                    self.string(k);
                    self.ws();
                    self.out.push(':');
                    self.ws();
                    self.value(x);
                    self.ws();
                }
                self.out.push('}');
            }
        }
    }
}

impl J {
    pub fn write(&self, style: &Style) -> String {
        let mut w = W { out: String::new(), style: &style.0, at: 0 };
        w.ws();
        w.value(self);
        w.ws();
        w.out
    }
    pub fn kind(&self) -> &'static str {
        match self {
            J::Null => "null",
            J::Bool(_) => "bool",
            J::Num(_) => "number",
            J::Str(_) => "string",
            J::Arr(_) => "array",
            J::Obj(_) => "object",
            J::Verbatim(_) => "text",
        }
    }
}

pub fn number() -> BoxedStrategy<J> {
    prop_oneof![
        select(vec!["0", "-0", "1", "-1", "1.5", "1e3", "1E+3", "2e-3", "123456789012345678901234567890", "0.1", "9007199254740993", "18446744073709551615", "-9223372036854775809"]).prop_map(|t| J::Num(t.into())),
        any::<i32>().prop_map(|n| J::Num(n.to_string())),
    ]
    .boxed()
}

/// Any value; nesting stays below what JSON parsers allow.
pub fn any_value() -> BoxedStrategy<J> {
    let leaf = prop_oneof![
        Just(J::Null),
        any::<bool>().prop_map(J::Bool),
        number(),
        gen::json_text().prop_map(J::Str),
    ];
    leaf.prop_recursive(4, 16, 4, |inner| {
        prop_oneof![
            vec(inner.clone(), 0..4).prop_map(J::Arr),
            // repeated names are no business of these properties
            vec((gen::json_text(), inner), 0..4).prop_map(|v| {
                let mut seen = std::collections::HashSet::new();
                J::Obj(v.into_iter().filter(|(k, _)| seen.insert(k.clone())).collect())
            }),
        ]
    })
    .boxed()
}

/// Edits that turn any object text into something that is not JSON.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Break {
    /// appended
    Append(String),
    Prepend(String),
    /// cut after this fraction (of 65536) of the characters, before the closing brace
    Cut(u16),
    /// before the closing brace
    BeforeClose(String),
    /// after the opening brace
    AfterOpen(String),
    Empty,
}

pub fn breaks() -> BoxedStrategy<Break> {
    let t = |v: Vec<&'static str>| select(v).prop_map(String::from);
    prop_oneof![
        2 => t(vec!["x", "}", ",", "{}", "null", "//c", "\u{0}", "\u{a0}", "]", ";", "\u{b}", "\u{c}", "\u{2028}", "# c", "\"\""]).prop_map(Break::Append),
        1 => t(vec!["x", "{", ",", "//c\n", "\u{0}", "\u{a0}", "[", "'", "\u{b}", "{}", "var k = "]).prop_map(Break::Prepend),
        3 => any::<u16>().prop_map(Break::Cut),
        3 => t(vec![",", ",,", ",\"a\"", ",\"a\":", ",a:1", ",'a':1", ",\"a\":01", ",\"a\":+1", ",\"a\":.5", ",\"a\":1.", ",\"a\":0x1", ",\"a\":NaN", ",\"a\":undefined", ",\"a\":True",
            ",\"a\":\"\n\"", ",\"a\":\"\t\"", ",\"a\":\"\\x41\"", ",\"a\":\"\\u12\"", ",\"a\":'b'", ",\"a\":\"\u{0}\"", ",\"a\" 1", ",\"a\":1 \"b\":2", "/* c */", ",1:2", ",\"a\":[1,]", ",\"a\":{\"b\":1,}", ",\"a\":[1 2]",
            ",\"a\":nul", ",\"a\":1e", ",\"a\":-", ",\"a\":\"\\\"", ",\"a\"=1"]).prop_map(Break::BeforeClose),
        1 => t(vec![",", ":", "\u{a0}", "a", "/**/", "\u{feff}", "\"", "}"]).prop_map(Break::AfterOpen),
        1 => Just(Break::Empty),
    ]
    .boxed()
}

impl Break {
    /// `text` is an object with at least one member.
    pub fn apply(&self, text: &str) -> String {
        let open = text.find('{').unwrap();
        let close = text.rfind('}').unwrap();
        match self {
            Break::Append(a) => format!("{text}{a}"),
            Break::Prepend(a) => format!("{a}{text}"),
            Break::Cut(n) => {
                let chars = text[..close].chars().count();
                text.chars().take(chars * *n as usize / 65_536).collect()
            }
            Break::BeforeClose(a) => format!("{}{a}{}", &text[..close], &text[close..]),
            Break::AfterOpen(a) => format!("{}{a}{}", &text[..=open], &text[open + 1..]),
            Break::Empty => String::new(),
        }
    }
}
