//! Reference model, written from the Cloud Storage documentation and independent of the crate:
//! percent codec, URL splitter, base64 and hex decoders, civil calendar, canonical request,
//! string to sign. `ring` is used only for SHA-256 and to verify RSA signatures.

use std::collections::BTreeMap;

pub const HOST: &str = "storage.googleapis.com";
pub const ORIGIN: &str = "https://storage.googleapis.com";
pub const V4_NAMES: [&str; 6] = [
    "X-Goog-Algorithm",
    "X-Goog-Credential",
    "X-Goog-Date",
    "X-Goog-Expires",
    "X-Goog-SignedHeaders",
    "X-Goog-Signature",
];

pub fn is_unreserved(b: u8) -> bool {
    b.is_ascii_alphanumeric() || matches!(b, b'-' | b'_' | b'.' | b'~')
}

/// Percent-encodes every byte except unreserved ones and those in `keep`.
pub fn pct_encode(s: &str, keep: &[u8]) -> String {
    let mut o = String::new();
    for &b in s.as_bytes() {
        if is_unreserved(b) || keep.contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

fn hexval(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}

/// RFC 3986 percent-decoding; a '%' without two hex digits is an error.
pub fn pct_decode(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            match (
                b.get(i + 1).copied().and_then(hexval),
                b.get(i + 2).copied().and_then(hexval),
            ) {
                (Some(h), Some(l)) => {
                    o.push(h * 16 + l);
                    i += 3;
                }
                _ => return Err(format!("invalid percent escape at byte {i} of {s:?}")),
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    Ok(o)
}

pub fn pct_decode_str(s: &str) -> Result<String, String> {
    String::from_utf8(pct_decode(s)?).map_err(|_| format!("decodes to invalid UTF-8: {s:?}"))
}

pub fn hex_decode_lower(s: &str) -> Result<Vec<u8>, String> {
    if s.len() % 2 != 0 {
        return Err("odd number of hex digits".into());
    }
    s.as_bytes()
        .chunks(2)
        .map(|c| {
            if c.iter().any(|b| !matches!(b, b'0'..=b'9' | b'a'..=b'f')) {
                return Err(format!("not lower-case hex: {s:?}"));
            }
            Ok(hexval(c[0]).unwrap() * 16 + hexval(c[1]).unwrap())
        })
        .collect()
}

pub fn hex_encode(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64_encode(data: &[u8]) -> String {
    let mut o = String::new();
    for c in data.chunks(3) {
        let v = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let n = (v[0] as u32) << 16 | (v[1] as u32) << 8 | v[2] as u32;
        for k in 0..4 {
            if k <= c.len() {
                o.push(B64[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

/// Strict standard base64 with padding (via re-encoding: only the canonical spelling is accepted).
pub fn b64_decode(s: &str) -> Result<Vec<u8>, String> {
    let t = s.trim_end_matches('=');
    let mut o = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for &b in t.as_bytes() {
        let v = B64
            .iter()
            .position(|&x| x == b)
            .ok_or_else(|| format!("not standard base64: {:?}", b as char))?;
        acc = (acc << 6 | v as u32) & 0xff_ffff;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
        }
    }
    if b64_encode(&o) != s {
        return Err("not canonical padded standard base64".into());
    }
    Ok(o)
}

/// Days since 1970-01-01 to (year, month, day), proleptic Gregorian, by counting years and months.
pub fn civil(days: i64) -> (i64, i64, i64) {
    let mut d = days;
    let mut y = 1970;
    // whole 400-year cycles first
    let c = d.div_euclid(146_097);
    d -= c * 146_097;
    y += c * 400;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n {
            break;
        }
        d -= n;
        y += 1;
    }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= ml[m] {
        d -= ml[m];
        m += 1;
    }
    (y, m as i64 + 1, d + 1)
}

pub fn parts(secs: i64) -> (i64, i64, i64, i64, i64, i64) {
    let (y, mo, d) = civil(secs.div_euclid(86_400));
    let s = secs.rem_euclid(86_400);
    (y, mo, d, s / 3600, s / 60 % 60, s % 60)
}

pub fn fmt_basic(secs: i64) -> String {
    let (y, mo, d, h, mi, s) = parts(secs);
    format!("{y:04}{mo:02}{d:02}T{h:02}{mi:02}{s:02}Z")
}

pub fn fmt_rfc3339(secs: i64) -> String {
    let (y, mo, d, h, mi, s) = parts(secs);
    format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z")
}

pub fn fmt_day(secs: i64) -> String {
    fmt_basic(secs)[..8].to_string()
}

/// Inverse of `fmt_basic`; rejects anything that is not exactly that form.
pub fn parse_basic(s: &str) -> Result<i64, String> {
    let bad = || format!("not YYYYMMDDTHHMMSSZ: {s:?}");
    let b = s.as_bytes();
    if b.len() != 16 || b[8] != b'T' || b[15] != b'Z' {
        return Err(bad());
    }
    let num = |r: std::ops::Range<usize>| -> Result<i64, String> {
        if b[r.clone()].iter().all(|c| c.is_ascii_digit()) {
            Ok(s[r].parse().unwrap())
        } else {
            Err(bad())
        }
    };
    let (y, mo, d) = (num(0..4)?, num(4..6)?, num(6..8)?);
    let (h, mi, se) = (num(9..11)?, num(11..13)?, num(13..15)?);
    // find the day number by bisection on the forward conversion
    let (mut lo, mut hi) = (-800_000i64, 3_000_000i64);
    while lo < hi {
        let mid = (lo + hi).div_euclid(2);
        if civil(mid) < (y, mo, d) {
            lo = mid + 1;
        } else {
            hi = mid;
        }
    }
    if civil(lo) != (y, mo, d) || h > 23 || mi > 59 || se > 59 {
        return Err(bad());
    }
    Ok(lo * 86_400 + h * 3600 + mi * 60 + se)
}

#[derive(Debug, Clone)]
pub struct Split<'a> {
    pub path: &'a str,
    pub query: &'a str,
    pub raw: Vec<(&'a str, &'a str)>,
}

/// Splits a URL on https://storage.googleapis.com without normalising anything.
pub fn split_url(url: &str) -> Result<Split<'_>, String> {
    let rest = url
        .strip_prefix(ORIGIN)
        .ok_or_else(|| format!("URL does not start with {ORIGIN}: {url:?}"))?;
    if !rest.starts_with('/') {
        return Err(format!("no path after the host: {url:?}"));
    }
    if rest.contains('#') {
        return Err(format!("URL has a fragment: {url:?}"));
    }
    let (path, query) = rest
        .split_once('?')
        .ok_or_else(|| format!("URL has no query: {url:?}"))?;
    let raw = query
        .split('&')
        .map(|p| p.split_once('=').unwrap_or((p, "")))
        .collect();
    Ok(Split { path, query, raw })
}

impl Split<'_> {
    pub fn decoded(&self) -> Result<Vec<(String, String)>, String> {
        self.raw
            .iter()
            .map(|(k, v)| Ok((pct_decode_str(k)?, pct_decode_str(v)?)))
            .collect()
    }
    pub fn one(&self, name: &str) -> Result<String, String> {
        let d = self.decoded()?;
        let mut it = d.into_iter().filter(|(k, _)| k == name);
        let v = it.next().ok_or_else(|| format!("{name} is missing"))?.1;
        if it.next().is_some() {
            return Err(format!("{name} appears more than once"));
        }
        Ok(v)
    }
}

/// Trim and collapse whitespace runs to one space.
pub fn norm_value(v: &str) -> String {
    let mut o = String::new();
    let mut pending = false;
    for c in v.chars() {
        if c == ' ' || c == '\t' {
            pending = true;
        } else {
            if pending && !o.is_empty() {
                o.push(' ');
            }
            pending = false;
            o.push(c);
        }
    }
    o
}

/// host plus the supplied headers, as they are on the wire: lower-cased name -> joined values.
pub fn norm_headers(headers: &[(String, String)]) -> BTreeMap<String, String> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in headers {
        let k = k.to_ascii_lowercase();
        if k == "host" {
            continue;
        }
        m.entry(k).or_default().push(norm_value(v));
    }
    m.insert("host".into(), vec![HOST.into()]);
    m.into_iter().map(|(k, v)| (k, v.join(","))).collect()
}

pub fn canonical_query(pairs: &[(String, String)]) -> String {
    let mut q: Vec<(String, String)> = pairs
        .iter()
        .map(|(k, v)| (pct_encode(k, b""), pct_encode(v, b"")))
        .collect();
    q.sort();
    q.iter()
        .map(|(k, v)| format!("{k}={v}"))
        .collect::<Vec<_>>()
        .join("&")
}

/// Canonical path of a path seen on the wire: escapes stay, reserved characters are escaped.
pub fn canonical_wire_path(path: &str) -> String {
    let b = path.as_bytes();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%'
            && i + 2 < b.len()
            && hexval(b[i + 1]).is_some()
            && hexval(b[i + 2]).is_some()
        {
            o.push('%');
            o.push_str(&path[i + 1..i + 3].to_ascii_uppercase());
            i += 3;
        } else {
            if is_unreserved(b[i]) || b[i] == b'/' {
                o.push(b[i] as char);
            } else {
                o.push_str(&format!("%{:02X}", b[i]));
            }
            i += 1;
        }
    }
    o
}

pub fn object_path(bucket: &str, object: &str) -> String {
    format!("/{}/{}", pct_encode(bucket, b""), pct_encode(object, b"/"))
}

pub fn canonical_request(
    method: &str,
    canonical_path: &str,
    query_without_signature: &[(String, String)],
    headers: &BTreeMap<String, String>,
) -> String {
    let mut s = String::new();
    s.push_str(method);
    s.push('\n');
    s.push_str(canonical_path);
    s.push('\n');
    s.push_str(&canonical_query(query_without_signature));
    s.push('\n');
    for (k, v) in headers {
        s.push_str(&format!("{k}:{v}\n"));
    }
    s.push('\n');
    s.push_str(&headers.keys().cloned().collect::<Vec<_>>().join(";"));
    s.push('\n');
    s.push_str(
        headers
            .get("x-goog-content-sha256")
            .map(|s| s.as_str())
            .unwrap_or("UNSIGNED-PAYLOAD"),
    );
    s
}

pub fn sha256_hex(s: &str) -> String {
    hex_encode(ring::digest::digest(&ring::digest::SHA256, s.as_bytes()).as_ref())
}

pub fn string_to_sign(date: &str, scope: &str, canonical_request: &str) -> String {
    format!(
        "GOOG4-RSA-SHA256\n{date}\n{scope}\n{}",
        sha256_hex(canonical_request)
    )
}

#[derive(Clone)]
pub struct PubKey {
    pub n: Vec<u8>,
    pub e: Vec<u8>,
}

impl PubKey {
    pub fn modulus_len(&self) -> usize {
        self.n.len()
    }
    pub fn verify(&self, message: &[u8], signature: &[u8]) -> bool {
        ring::signature::RsaPublicKeyComponents {
            n: &self.n,
            e: &self.e,
        }
        .verify(
            &ring::signature::RSA_PKCS1_2048_8192_SHA256,
            message,
            signature,
        )
        .is_ok()
    }
}

/// What a V4 verifier sees: the string to sign recomputed from the request on the wire.
pub fn wire_string_to_sign(
    url: &str,
    method: &str,
    headers: &[(String, String)],
    region: &str,
) -> Result<String, String> {
    let sp = split_url(url)?;
    let all = sp.decoded()?;
    let date = sp.one("X-Goog-Date")?;
    parse_basic(&date)?;
    let scope = format!("{}/{region}/storage/goog4_request", &date[..8]);
    let cred = sp.one("X-Goog-Credential")?;
    if !cred.ends_with(&format!("/{scope}")) {
        return Err(format!("credential {cred:?} does not end with scope {scope:?}"));
    }
    if sp.one("X-Goog-Algorithm")? != "GOOG4-RSA-SHA256" {
        return Err("algorithm is not GOOG4-RSA-SHA256".into());
    }
    let hs = norm_headers(headers);
    let listed = sp.one("X-Goog-SignedHeaders")?;
    let want = hs.keys().cloned().collect::<Vec<_>>().join(";");
    if listed != want {
        return Err(format!(
            "X-Goog-SignedHeaders is {listed:?}, the request has {want:?}"
        ));
    }
    let q: Vec<_> = all
        .into_iter()
        .filter(|(k, _)| k != "X-Goog-Signature")
        .collect();
    let cr = canonical_request(method, &canonical_wire_path(sp.path), &q, &hs);
    Ok(string_to_sign(&date, &scope, &cr))
}

pub fn wire_verify(
    url: &str,
    method: &str,
    headers: &[(String, String)],
    region: &str,
    key: &PubKey,
) -> Result<(), String> {
    let sts = wire_string_to_sign(url, method, headers, region)?;
    let sig = hex_decode_lower(&split_url(url)?.one("X-Goog-Signature")?)?;
    if !key.verify(sts.as_bytes(), &sig) {
        return Err(format!(
            "signature does not verify; verifier's string to sign: {sts:?}; url: {url:?}"
        ));
    }
    Ok(())
}

/// Sorted multiset, for comparison.
pub fn multiset<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn calendar() {
        assert_eq!(fmt_basic(0), "19700101T000000Z");
        assert_eq!(fmt_basic(1_577_934_245), "20200102T030405Z");
        assert_eq!(fmt_rfc3339(253_402_300_799), "9999-12-31T23:59:59Z");
        assert_eq!(fmt_basic(951_782_400), "20000229T000000Z");
        assert_eq!(fmt_basic(-62_167_219_200), "00000101T000000Z");
        for s in [0, 1, 951_782_400, 253_402_300_799, 4_107_542_399, -62_167_219_200] {
            assert_eq!(parse_basic(&fmt_basic(s)).unwrap(), s);
        }
        assert!(parse_basic("20210229T000000Z").is_err());
    }
    #[test]
    fn b64() {
        for s in ["", "a", "ab", "abc", "abcd", "\u{e9}~"] {
            assert_eq!(b64_decode(&b64_encode(s.as_bytes())).unwrap(), s.as_bytes());
        }
        assert_eq!(b64_encode(b"Man"), "TWFu");
        assert_eq!(b64_encode(b"Ma"), "TWE=");
        assert!(b64_decode("TWE").is_err());
        assert!(b64_decode("TW-_").is_err());
    }
    #[test]
    fn norm() {
        assert_eq!(norm_value("  a \t b  "), "a b");
        assert_eq!(norm_value(" \t "), "");
    }
}
