//! C15: service-account JSON.
use crate::gen;
use crate::json::{self, Break, Style, J};
use crate::keys;
use crate::runner::{Obs, Prop};
use crate::types::*;
use cloud_storage_signature as css;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wrong {
    /// the member (true: private_key) is missing
    Missing(bool),
    /// it has this value, not a string
    Kind(bool, J),
    /// it is there under a similar name only
    Renamed(bool, String),
    /// it has this value, and stands under that name as it should be
    Alias(bool, J, String),
    /// all of the key stands in an object (or an array of one) of this name; or but one of its members does
    Nested(String, bool, Option<bool>),
    /// the root is this, not an object
    Root(J),
    /// the root is an array holding the object
    InArray,
    Broken(Break),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Via {
    Text,
    File(String),
    Symlink,
    /// this, in the current directory
    Relative(String),
    /// a pipe, written in pieces of so many bytes
    Pipe(u32),
    /// the file has this instead
    NonUtf8(Vec<u8>, u16),
    Missing,
    Directory,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LoadCase {
    pub email: String,
    pub key: usize,
    /// the PEM's line ends
    pub crlf: bool,
    pub end_newline: bool,
    /// a private key that is not the PEM text itself
    pub mangled: Option<String>,
    pub before: String,
    pub after: String,
    pub extra: Vec<(String, J)>,
    /// an additional member with this many characters
    pub pad: u32,
    pub email_at: usize,
    pub key_at: usize,
    pub style: Style,
    pub wrong: Option<Wrong>,
    pub via: Via,
    pub form: bool,
    pub object: String,
}

fn extra() -> BoxedStrategy<Vec<(String, J)>> {
    let name = prop_oneof![
        4 => select(vec!["type", "project_id", "private_key_id", "client_id", "auth_uri", "token_uri", "auth_provider_x509_cert_url", "client_x509_cert_url", "universe_domain",
            "Client_Email", "client_email ", " private_key", "CLIENT_EMAIL", "clientEmail", "privateKey", "private_keys", "client_emai", "", "email", "key", "client_email\u{0}"]).prop_map(String::from),
        1 => gen::json_text(),
        crate::dict::w(1) => crate::dict::word(),
    ];
    // another key deeper down
    let decoy = Just(J::Obj(vec![("client_email".into(), json::s("decoy@example.com")), ("private_key".into(), json::s(keys::PEMS[1]))]));
    vec((name, prop_oneof![8 => json::any_value(), 1 => decoy]), 0..6)
        .prop_map(|v| {
            let mut seen: std::collections::HashSet<String> = ["client_email".to_string(), "private_key".to_string()].into();
            v.into_iter().filter(|(k, _)| seen.insert(k.clone())).collect()
        })
        .boxed()
}

fn surrounding() -> BoxedStrategy<String> {
    prop_oneof![
        6 => Just(String::new()),
        3 => select(vec!["Bag Attributes\n    localKeyID: 01\nKey Attributes: <No Attributes>\n", "\n\n", "  \n", "# my key\n", "text\n", "\r\n", "日本語\n", "MIIE\n", "----\n"]).prop_map(String::from),
        1 => vec(gen::token(), 0..4).prop_map(|v| { let t = v.concat().replace('-', "+"); format!("{t}\n") }),
    ]
    .boxed()
}

impl LoadCase {
    fn pem(&self) -> String {
        if let Some(m) = &self.mangled {
            return m.clone();
        }
        let mut p = keys::PEMS[self.key].trim_end().to_string();
        if self.end_newline || !self.after.is_empty() {
            p += "\n";
        }
        let t = format!("{}{p}{}", self.before, self.after);
        if self.crlf {
            t.replace("\r\n", "\n").replace('\n', "\r\n")
        } else {
            t
        }
    }
    fn text(&self) -> String {
        let mut m = self.extra.clone();
        if self.pad > 0 {
            m.insert(self.pad as usize % (m.len() + 1), ("padding".into(), json::s("x".repeat(self.pad as usize))));
        }
        let mut wanted = [("client_email".to_string(), json::s(&self.email), self.email_at), ("private_key".to_string(), json::s(self.pem()), self.key_at)];
        let mut drop = None;
        match &self.wrong {
            Some(Wrong::Missing(k)) => drop = Some(*k as usize),
            Some(Wrong::Kind(k, j)) => wanted[*k as usize].1 = j.clone(),
            Some(Wrong::Renamed(k, n)) => {
                m.retain(|e| e.0 != *n);
                wanted[*k as usize].0 = n.clone();
            }
            Some(Wrong::Alias(k, j, n)) => {
                let w = &mut wanted[*k as usize];
                m.retain(|e| e.0 != *n);
                m.insert(w.2 % (m.len() + 1), (n.clone(), w.1.clone()));
                w.1 = j.clone();
            }
            Some(Wrong::Nested(n, array, keep)) => {
                m.retain(|e| e.0 != *n);
                let inner = J::Obj(wanted.iter().map(|(k, v, _)| (k.clone(), v.clone())).collect());
                m.insert(self.pad as usize % (m.len() + 1), (n.clone(), if *array { J::Arr(vec![inner]) } else { inner }));
                for (i, (k, v, at)) in wanted.iter().enumerate() {
                    if keep.is_some_and(|k| k as usize == i) {
                        m.insert(at % (m.len() + 1), (k.clone(), v.clone()));
                    }
                }
                return J::Obj(m).write(&self.style);
            }
            _ => {}
        }
        for (i, (k, v, at)) in wanted.into_iter().enumerate() {
            if drop != Some(i) {
                m.insert(at % (m.len() + 1), (k, v));
            }
        }
        let root = match &self.wrong {
            Some(Wrong::Root(j)) => j.clone(),
            Some(Wrong::InArray) => J::Arr(vec![J::Obj(m)]),
            _ => J::Obj(m),
        };
        let t = root.write(&self.style);
        match &self.wrong {
            Some(Wrong::Broken(b)) => b.apply(&t),
            _ => t,
        }
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("csig-load-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// What a key signs, as URL or as signed form field.
fn product(key: css::SigningKey, c: &LoadCase) -> Result<String, String> {
    let t = Ts { s: 1_700_000_000, n: 0 }.system_time();
    let e = Ts { s: 1_700_003_600, n: 0 }.system_time();
    if c.form {
        block_on(
            css::HtmlFormData::builder()
                .key(c.object.clone())
                .bucket("b")
                .policy_document_signing_options(css::PolicyDocumentSigningOptions { accessible_at: Some(t), expiration: e, region: None, signing_key: key, use_sign_blob: false })
                .build(),
        )
        .map(|f| serde_json::to_string(&f.into_vec()).unwrap())
        .map_err(|e| e.to_string())
    } else {
        block_on(css::build_signed_url(css::BuildSignedUrlOptions {
            bucket_name: "b".into(),
            object_name: c.object.clone(),
            region: None,
            expires: e,
            http_method: "GET".into(),
            accessible_at: Some(t),
            signing_key: key,
            use_sign_blob: false,
            headers: vec![],
            query_parameters: vec![],
        }))
        .map_err(|e| e.to_string())
    }
}

pub struct C15;
impl Prop for C15 {
    type Case = LoadCase;
    const ID: &'static str = "C15";
    const RULE: &'static str = "A service-account JSON document from an independent writer: member order, whitespace, string escapes, further members (near-miss names, any values, up to 300000 characters), PEM with other line ends or surrounding text; or one spoilt so that it certainly is not acceptable; loaded from text or from a file in a scratch directory (also through a link, by a relative path with special characters, or a pipe). Non-trivial: it is spoilt, or spelled other than compactly, or has further members, or comes from a path.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "documents repeat neither client_email nor private_key, nest less than 60 deep, and hold no number beyond a double's range and no unpaired surrogate escape",
        "no byte order mark; PEM lines end in LF or CRLF",
    ];
    const QUICK: u32 = 80_000;
    fn strategy() -> BoxedStrategy<LoadCase> {
        let kind = json::any_value().prop_map(|j| if matches!(j, J::Str(_)) { J::Arr(vec![j]) } else { j });
        let renamed = select(vec!["Client_Email", "client_email ", "clientEmail", "privateKey", "PRIVATE_KEY", "private-key", "email", "key", "client_email\u{0}", "private_key_"]).prop_map(String::from);
        let names = || prop_oneof![3 => select(vec!["email", "key", "privateKey", "clientEmail", "service_account", "web", "installed", "credentials", "data", "value", ""]).prop_map(String::from), crate::dict::w(1) => crate::dict::word()];
        let other = || names().prop_map(|n| if n == "client_email" || n == "private_key" { n + "_" } else { n });
        let renamed = prop_oneof![2 => renamed, 1 => other()];
        let root = json::any_value().prop_map(|j| if matches!(j, J::Obj(_)) { J::Arr(vec![j]) } else { j });
        let wrong = prop_oneof![
            1 => any::<bool>().prop_map(Wrong::Missing),
            1 => (any::<bool>(), prop_oneof![Just(J::Null), kind.clone()], other()).prop_map(|(k, j, n)| Wrong::Alias(k, j, n)),
            2 => (other(), prop::bool::weighted(0.2), prop::option::weighted(0.3, any::<bool>())).prop_map(|(n, a, k)| Wrong::Nested(n, a, k)),
            2 => (any::<bool>(), kind).prop_map(|(k, j)| Wrong::Kind(k, j)),
            1 => (any::<bool>(), renamed).prop_map(|(k, n)| Wrong::Renamed(k, n)),
            1 => root.prop_map(Wrong::Root),
            1 => Just(Wrong::InArray),
            3 => json::breaks().prop_map(Wrong::Broken),
        ];
        let via = prop_oneof![
            4 => Just(Via::Text),
            3 => select(vec!["key.json", "key", "a b.json", "日本語.json", "%41.json", "key.json.", ".key", "~", "-", "a\\b", "$HOME"]).prop_map(|n| Via::File(n.into())),
            1 => Just(Via::Symlink),
            1 => select(vec!["key.json", "./key.json", "~", "~/key.json", "$HOME/key.json", "-", "a/../key.json", "a//key.json", "file:key.json", "file:/key.json", "http:/x/key.json", "%7E/key.json",
                "@key.json", "*.json", "<key.json", "{}", " key.json", "key.json ", "gs:/b/key.json", "${HOME}", "a\\key.json"]).prop_map(|n| Via::Relative(n.into())),
            1 => prop_oneof![Just(1u32 << 30), 500u32..6000].prop_map(Via::Pipe),
            2 => (select(vec![vec![0xffu8], vec![0xc3], vec![0xed, 0xa0, 0x80], vec![0xc0, 0x80], vec![0xf5, 0x80, 0x80, 0x80], vec![0xfe, 0xff]]), any::<u16>()).prop_map(|(b, p)| Via::NonUtf8(b, p)),
            1 => Just(Via::Missing),
            1 => Just(Via::Directory),
        ];
        (
            (gen::email(), gen::key(), any::<bool>(), any::<bool>(), surrounding(), prop_oneof![9 => surrounding(), 1 => Just(keys::PUBLIC.to_string())], prop::option::weighted(0.15, super::url::bad_pem())),
            (extra(), prop_oneof![12 => Just(0u32), 1 => 1u32..300_000], 0usize..7, 0usize..7),
            (json::style(), prop::option::weighted(0.35, wrong), via, any::<bool>(), gen::object()),
        )
            .prop_map(|((email, key, crlf, end_newline, before, after, mangled), (extra, pad, email_at, key_at), (style, wrong, via, form, object))| LoadCase {
                email, key, crlf, end_newline, mangled, before, after, extra, pad, email_at, key_at, style, wrong, via, form, object,
            })
            .boxed()
    }
    fn check(c: &LoadCase, obs: &mut Obs) -> Result<(), String> {
        let text = c.text();
        obs.nontrivial_if(c.wrong.is_some() || !c.style.0.is_empty() || !c.extra.is_empty() || !matches!(c.via, Via::Text));
        obs.class(match &c.wrong {
            None => "acceptable",
            Some(Wrong::Missing(_)) => "member missing",
            Some(Wrong::Kind(..)) => "member not a string",
            Some(Wrong::Nested(..)) => "key deeper down",
            Some(Wrong::Renamed(..) | Wrong::Alias(..)) => "member under another name",
            Some(Wrong::Root(_) | Wrong::InArray) => "root not an object",
            Some(Wrong::Broken(_)) => "not JSON",
        });
        let dir;
        let mut readable = true;
        let mut writer = None;
        let loaded = match &c.via {
            Via::Text => css::SigningKey::service_account_from_str(&text),
            via => {
                obs.class("from a path");
                dir = Scratch::new();
                let mut p = dir.0.join("key.json");
                match via {
                    Via::File(n) => {
                        p = dir.0.join(n);
                        std::fs::write(&p, &text).unwrap();
                    }
                    Via::Symlink => {
                        let t = dir.0.join("target");
                        std::fs::write(&t, &text).unwrap();
                        std::os::unix::fs::symlink(&t, &p).unwrap();
                    }
                    Via::Relative(n) => {
                        std::env::set_current_dir(&dir.0).unwrap();
                        p = PathBuf::from(n);
                        if let Some(parent) = p.parent() {
                            std::fs::create_dir_all(parent).unwrap();
                        }
                        std::fs::write(&p, &text).unwrap();
                    }
                    Via::Pipe(n) => {
                        use std::io::Write as _;
                        let (reader, mut pipe) = std::io::pipe().unwrap();
                        p = PathBuf::from(format!("/dev/fd/{}", std::os::fd::AsRawFd::as_raw_fd(&reader)));
                        let (text, n) = (text.clone().into_bytes(), *n as usize);
                        let t = std::thread::spawn(move || {
                            for piece in text.chunks(n) {
                                if pipe.write_all(piece).is_err() {
                                    break;
                                }
                            }
                        });
                        writer = Some((reader, t));
                    }
                    Via::NonUtf8(b, at) => {
                        readable = false;
                        let chars = text.chars().count();
                        let head: String = text.chars().take(chars * *at as usize / 65_535).collect();
                        let mut t = head.as_bytes().to_vec();
                        t.extend(b);
                        t.extend(&text.as_bytes()[head.len()..]);
                        // the text that follows may not complete the sequence
                        assert!(std::str::from_utf8(&t).is_err());
                        std::fs::write(&p, t).unwrap();
                    }
                    Via::Missing => readable = false,
                    Via::Directory => {
                        readable = false;
                        std::fs::create_dir(&p).unwrap();
                    }
                    Via::Text => unreachable!(),
                }
                let r = css::SigningKey::service_account_from_path(&p);
                if matches!(via, Via::Relative(_)) {
                    std::env::set_current_dir("/").unwrap();
                }
                if let Some((reader, t)) = writer {
                    drop(reader);
                    t.join().unwrap();
                }
                r
            }
        };
        if !readable {
            obs.class("unreadable");
        }
        let expected = c.wrong.is_none() && readable;
        match (loaded, expected) {
            (Ok(_), false) => Err(format!("loaded although {:?} via {:?}: {text:?}", c.wrong, c.via)),
            (Err(e), true) => Err(format!("rejected ({e}): {text:?}")),
            (Err(_), false) => Ok(()),
            (Ok(k), true) if c.mangled.is_some() => {
                obs.class("private key damaged");
                let got = product(k, c);
                let want = product(css::SigningKey::service_account(c.email.clone(), c.pem()), c);
                if got.as_ref().ok() != want.as_ref().ok() {
                    return Err(format!("the loaded key gives {got:?}, e-mail and key give {want:?}; document {text:?}"));
                }
                Ok(())
            }
            (Ok(k), true) => {
                let got = product(k, c).map_err(|e| format!("the loaded key does not sign ({e}): {text:?}"))?;
                let want = product(css::SigningKey::service_account(c.email.clone(), keys::PEMS[c.key].to_string()), c)
                    .map_err(|e| format!("the key itself does not sign: {e}"))?;
                if got != want {
                    return Err(format!("the loaded key signs {got}, e-mail and key give {want}; document {text:?}"));
                }
                Ok(())
            }
        }
    }
}
