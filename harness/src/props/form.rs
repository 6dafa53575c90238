//! C09-C12: what HtmlFormDataBuilder::build returns.
use super::url::{bad_pem, bound, bound_kind, KeyKind};
use crate::gen;
use crate::keys;
use crate::oracle::*;
use crate::runner::{Obs, Prop};
use crate::types::*;
use cloud_storage_signature as css;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

fn form_classes(c: &FormCase, obs: &mut Obs) {
    obs.class_if(c.opts.is_some(), "signed");
    let mut f: Vec<_> = c.sets.iter().filter(|s| !matches!(s, Set::Meta(..))).map(|s| s.field()).collect();
    f.sort();
    obs.class_if(f.windows(2).any(|w| w[0] == w[1]), "field set twice");
    let mut m: Vec<_> = c.metas().into_iter().map(|m| m.0).collect();
    m.sort();
    obs.class_if(m.windows(2).any(|w| w[0] == w[1]), "repeated metadata name");
    obs.class_if(m.len() > 1, "several metadata fields");
    obs.class_if(c.sets.iter().any(|s| matches!(s, Set::ContentLength(_))), "Content-Length");
    obs.class_if(c.sets.iter().any(|s| s.value().bytes().any(|b| b < 32 || b == b'"' || b == b'\\')), "value needs JSON escaping");
}

/// The fields as documented, without the values signing adds.
fn model(c: &FormCase) -> Vec<(String, Option<String>)> {
    let mut out = vec![];
    for f in ORDER {
        if SIGNING_FIELDS.contains(&f) {
            if c.opts.is_some() {
                out.push((f.to_string(), None));
            }
        } else if let Some(v) = c.last(f) {
            out.push((f.to_string(), Some(v)));
        }
    }
    for (k, v) in c.metas() {
        out.push((format!("x-goog-meta-{k}"), Some(v)));
    }
    out
}

pub struct C09;
impl Prop for C09 {
    type Case = FormCase;
    const ID: &'static str = "C09";
    const RULE: &'static str = "A sequence of up to 30 setter calls with repeats and adversarial text, signed or not, options given at any position. Non-trivial: two or more fields besides the required ones. The exact field list is compared with a last-set-wins model.";
    const QUICK: u32 = 120_000;
    fn strategy() -> BoxedStrategy<FormCase> {
        gen::form_case(false)
    }
    fn check(c: &FormCase, obs: &mut Obs) -> Result<(), String> {
        form_classes(c, obs);
        obs.nontrivial_if(c.sets.len() > 3);
        let f = c.form()?;
        let m = model(c);
        let ok = f.len() == m.len() && f.iter().zip(&m).all(|(a, b)| a.0 == b.0 && b.1.as_ref().is_none_or(|v| *v == a.1));
        if !ok {
            return Err(format!("form is {f:?}, expected {m:?}"));
        }
        if let Some(e) = f.iter().find(|(k, v)| SIGNING_FIELDS.contains(&k.as_str()) && v.is_empty()) {
            return Err(format!("{} is empty", e.0));
        }
        Ok(())
    }
}

/// JSON object members in order, duplicates kept.
pub struct Members(pub Vec<(String, serde_json::Value)>);
impl<'de> Deserialize<'de> for Members {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Members;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("an object")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut m: A) -> Result<Members, A::Error> {
                let mut v = vec![];
                while let Some(e) = m.next_entry()? {
                    v.push(e);
                }
                Ok(Members(v))
            }
        }
        d.deserialize_map(V)
    }
}

pub fn check_policy(f: &Pairs, expiration: i64) -> Result<(), String> {
    let policy = b64_decode(&get(f, "policy")?)?;
    let text = String::from_utf8(policy).map_err(|_| "policy is not UTF-8")?;
    let Members(m) = serde_json::from_str(&text).map_err(|e| format!("policy {text:?}: {e}"))?;
    let mut names: Vec<&str> = m.iter().map(|e| e.0.as_str()).collect();
    names.sort();
    if names != ["conditions", "expiration"] {
        return Err(format!("policy members are {names:?}"));
    }
    let member = |n: &str| &m.iter().find(|e| e.0 == n).unwrap().1;
    let want_exp = fmt_rfc3339(expiration);
    if member("expiration").as_str() != Some(&want_exp) {
        return Err(format!("expiration is {}, requested {want_exp}", member("expiration")));
    }
    let mut got: Vec<String> = member("conditions")
        .as_array()
        .ok_or("conditions is not an array")?
        .iter()
        .map(|c| c.to_string())
        .collect();
    let mut want: Vec<String> = f
        .iter()
        .filter_map(|(k, v)| match k.as_str() {
            "policy" | "x-goog-signature" => None,
            "Content-Length" => {
                let n: u64 = v.parse().ok()?;
                Some(serde_json::json!(["content-length-range", n, n]).to_string())
            }
            _ => Some(serde_json::json!(["eq", format!("${k}"), v]).to_string()),
        })
        .collect();
    got.sort();
    want.sort();
    if got != want {
        let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).collect();
        let missing: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
        return Err(format!("conditions do not match the fields: extra {extra:?}, missing {missing:?}, {} for {} fields", got.len(), want.len()));
    }
    Ok(())
}

pub struct C10;
impl Prop for C10 {
    type Case = FormCase;
    const ID: &'static str = "C10";
    const RULE: &'static str = "A signed form built by up to 30 setter calls with adversarial text. Non-trivial: more fields than the required ones. The policy is decoded with the harness's own base64 and compared with the returned fields as a multiset.";
    const QUICK: u32 = 120_000;
    fn strategy() -> BoxedStrategy<FormCase> {
        gen::form_case(true)
    }
    fn check(c: &FormCase, obs: &mut Obs) -> Result<(), String> {
        form_classes(c, obs);
        obs.nontrivial_if(c.sets.len() > 2);
        let f = c.form()?;
        let o = c.opts.as_ref().unwrap();
        obs.class_if(o.expiration.n != 0, "sub-second expiration");
        check_policy(&f, o.expiration.s)
    }
}

pub struct C11;
impl Prop for C11 {
    type Case = FormCase;
    const ID: &'static str = "C11";
    const RULE: &'static str = "A signed form over all fields and four RSA keys. Non-trivial: more fields than the required ones. The signature is verified with the public key over the bytes of the policy field.";
    const ASSUMPTIONS: &'static [&'static str] = &["SHA-256 is collision-free: a signature verifies for one policy only."];
    const QUICK: u32 = 96_000;
    fn strategy() -> BoxedStrategy<FormCase> {
        (gen::form_case(true), prop_oneof![6 => Just(None), 1 => (0usize..4).prop_map(Some)])
            .prop_map(|(mut c, k)| {
                if let (Some(k), Some(o)) = (k, c.opts.as_mut()) {
                    o.key = k;
                }
                c
            })
            .boxed()
    }
    fn check(c: &FormCase, obs: &mut Obs) -> Result<(), String> {
        form_classes(c, obs);
        obs.nontrivial_if(c.sets.len() > 2);
        let k = c.opts.as_ref().unwrap().key;
        obs.class(format!("key {k}"));
        let f = c.form()?;
        let policy = get(&f, "policy")?;
        b64_decode(&policy).map_err(|e| format!("policy field: {e}"))?;
        let s = get(&f, "x-goog-signature")?;
        let bytes = hex_decode_lower(&s)?;
        let pk = keys::public(k);
        if bytes.len() != pk.modulus_len() {
            return Err(format!("signature has {} bytes, the modulus {}", bytes.len(), pk.modulus_len()));
        }
        if !pk.verify(policy.as_bytes(), &bytes) {
            return Err(format!("x-goog-signature does not verify over the policy field {policy:?}"));
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FormReject {
    pub form: FormCase,
    pub kind: KeyKind,
    pub sign_blob_hmac: bool,
}

pub struct C12;
impl Prop for C12 {
    type Case = FormReject;
    const ID: &'static str = "C12";
    const RULE: &'static str = "A form with any subset of fields, with or without signing options, times around every boundary at nanosecond resolution, and keys of every kind. Accepted if and only if the stated predicate holds. Non-trivial: it has to be rejected, or it is signed.";
    const ASSUMPTIONS: &'static [&'static str] = &["The sub-second part of the last second of year 9999 is left unspecified."];
    const QUICK: u32 = 180_000;
    fn strategy() -> BoxedStrategy<FormReject> {
        let window = prop_oneof![
            3 => select(vec![-1i128, 0, 1, -G, G, G - 1, 999_999_999, -999_999_999, 500_000_000]),
            2 => (1i128..=30_000_000).prop_map(|s| s * G),
            1 => -30_000_000 * G..30_000_000 * G,
        ];
        let start = prop_oneof![
            10 => gen::ts(),
            1 => (select(vec![-1i64, -2, -86_400, -62_167_219_200, 253_402_300_800, 253_402_300_799, 253_402_387_200, 0, 1_000_000_000_000]), gen::nanos()).prop_map(|(s, n)| Ts { s, n }),
        ];
        (
            gen::sets(),
            (prop::option::weighted(0.85, prop_oneof![2 => Just("k".to_string()), 1 => gen::json_text()]), prop::option::weighted(0.85, prop_oneof![2 => Just("b".to_string()), 1 => gen::json_text()]), prop::option::weighted(0.08, prop_oneof![Just(String::new()), Just("v".to_string()), gen::json_text()])),
            (prop::bool::weighted(0.75), start, window, prop::bool::weighted(0.7), gen::ts()),
            (gen::region(), gen::email(), any::<usize>()),
            prop_oneof![
                12 => Just(KeyKind::Good),
                3 => bad_pem().prop_map(KeyKind::Bad),
                1 => (gen::text(), gen::text()).prop_map(|(a, b)| KeyKind::Hmac(a, b)),
                1 => Just(KeyKind::ServiceAccountSignBlob),
                2 => bound_kind(),
            ],
            any::<bool>(),
        )
            .prop_map(|(mut sets, (key, bucket, empty_meta), (sign, s, w, explicit, other), (region, email, at), kind, sign_blob_hmac)| {
                // a bound token's own use of the clock expects it after 1970
                let kind = if (if explicit { other } else { s }).s < 0 && matches!(kind, KeyKind::BoundNoSignBlob(..) | KeyKind::BoundSignBlob(..)) { KeyKind::Good } else { kind };
                sets.retain(|x| !matches!(x, Set::Key(_) | Set::Bucket(_)) && !matches!(x, Set::Meta(k, _) if k.is_empty()));
                let n = sets.len();
                if let Some(k) = key {
                    sets.insert(at % (n + 1), Set::Key(if at % 5 == 0 { String::new() } else { k }));
                }
                if let Some(b) = bucket {
                    sets.insert(at / 7 % (n + 1), Set::Bucket(if at % 7 == 0 { String::new() } else { b }));
                }
                if let Some(v) = empty_meta {
                    sets.insert(at / 49 % (n + 1), Set::Meta(String::new(), v));
                }
                FormReject {
                    form: FormCase {
                        at: at / 343 % (sets.len() + 1),
                        sets,
                        opts: sign.then(|| Opts { start: explicit.then_some(s), expiration: Ts::from_ns(s.ns() + w), region, key: 0, email, dress: 0 }),
                        now: if explicit { other } else { s },
                    },
                    kind,
                    sign_blob_hmac,
                }
            })
            .boxed()
    }
    fn check(c: &FormReject, obs: &mut Obs) -> Result<(), String> {
        let f = &c.form;
        let no_key = f.last("key").is_none();
        let empty_meta = f.metas().iter().any(|m| m.0.is_empty());
        let mut reject = no_key || empty_meta;
        let mut unspecified = false;
        obs.class_if(no_key, "key missing");
        obs.class_if(empty_meta, "empty metadata name");
        if let Some(o) = &f.opts {
            let (s, e) = (f.start_eff(), o.expiration);
            let no_bucket = f.last("bucket").is_none();
            let order = e.ns() <= s.ns();
            let range = [s, e].iter().any(|t| t.s < 0 || t.s > gen::MAX_S);
            unspecified = [s, e].iter().any(|t| t.s == gen::MAX_S && t.n > 0);
            obs.class_if(no_bucket, "bucket missing");
            obs.class_if(order, "expiration not after start");
            obs.class_if(range, "instant out of range");
            obs.class_if(!c.kind.good(), "key cannot sign");
            obs.class_if(!order && e.s == s.s, "expiration in the start's second");
            reject = reject || no_bucket || order || range || !c.kind.good();
        }
        obs.class_if(!reject, "accepted");
        obs.nontrivial_if(reject || f.opts.is_some());
        let email = f.opts.as_ref().map(|o| o.email.clone()).unwrap_or_default();
        let r = match &c.kind {
            KeyKind::BoundNoSignBlob(w, l) | KeyKind::BoundSignBlob(w, l) => {
                let sb = c.kind.good();
                obs.class_if(*w, "bound token used before");
                bound(*w, *l, f.now, async |key| f.builder(Some(key), sb).build().await.map(|f| f.into_vec()).map_err(|e| e.to_string()))?
            }
            k => {
                let (key, sb) = match k {
                    KeyKind::Bad(pem) => (Some(css::SigningKey::service_account(email, pem.clone())), false),
                    KeyKind::Hmac(a, b) => (Some(css::SigningKey::hmac(a.clone(), b.clone())), c.sign_blob_hmac),
                    KeyKind::ServiceAccountSignBlob => (f.sa_key(), true),
                    _ => (f.sa_key(), false),
                };
                crate::clock::set(f.now.s, f.now.n);
                let r = block_on(f.builder(key, sb).build());
                crate::clock::off();
                r.map(|f| f.into_vec()).map_err(|e| e.to_string())
            }
        };
        match r {
            Ok(v) if reject => Err(format!("form accepted that must be rejected: {v:?}")),
            Err(e) if !reject && !unspecified => Err(format!("form rejected that must be accepted: {e}")),
            Err(_) => Ok(()),
            Ok(v) => {
                let n = SIGNING_FIELDS.iter().filter(|s| v.iter().any(|(k, _)| k == *s)).count();
                let want = if f.opts.is_some() { 5 } else { 0 };
                if n != want {
                    return Err(format!("form has {n} of the signing fields, expected {want}: {v:?}"));
                }
                Ok(())
            }
        }
    }
}
