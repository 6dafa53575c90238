use crate::oracle::PubKey;
use std::sync::OnceLock;

pub const PEMS: [&str; 4] = [
    include_str!("../keys/rsa2048a.pem"),
    include_str!("../keys/rsa2048b.pem"),
    include_str!("../keys/rsa3072.pem"),
    include_str!("../keys/rsa4096.pem"),
];
/// An environment variable of the harness that holds a key.
pub const ENV: &str = "CSIG_KEY_TEXT";
pub const EC: &str = include_str!("../keys/ec.pem");
pub const PKCS1: &str = include_str!("../keys/rsa2048a.pkcs1.pem");
pub const PUBLIC: &str = include_str!("../keys/rsa2048a.pub.pem");

pub const DRESSES: u8 = 8;

/// The key's PEM text, written otherwise or with other text around it.
pub fn dressed(i: usize, dress: u8) -> String {
    let p = PEMS[i];
    match dress {
        1 => p.replace('\n', "\r\n"),
        2 => p.trim_end().to_string(),
        3 => format!("{p}{PUBLIC}"),
        4 => format!("Bag Attributes\n    localKeyID: 01\nKey Attributes: <No Attributes>\n{p}"),
        5 => format!("\n \n{p}\n\n"),
        6 => format!("{p}# the end\n"),
        7 => format!("{p}\n{PUBLIC}").replace('\n', "\r\n"),
        _ => p.to_string(),
    }
}

pub fn der(i: usize) -> Vec<u8> {
    let body: String = PEMS[i].lines().filter(|l| !l.starts_with("-----")).collect();
    crate::oracle::b64_decode(&body).unwrap()
}

pub fn pair(i: usize) -> &'static ring::signature::RsaKeyPair {
    static K: OnceLock<Vec<ring::signature::RsaKeyPair>> = OnceLock::new();
    &K.get_or_init(|| {
        (0..PEMS.len())
            .map(|i| ring::signature::RsaKeyPair::from_pkcs8(&der(i)).unwrap())
            .collect()
    })[i]
}

pub fn public(i: usize) -> &'static PubKey {
    static K: OnceLock<Vec<PubKey>> = OnceLock::new();
    &K.get_or_init(|| {
        (0..PEMS.len())
            .map(|i| {
                let c: ring::rsa::PublicKeyComponents<Vec<u8>> = pair(i).public().into();
                PubKey { n: c.n, e: c.e }
            })
            .collect()
    })[i]
}

/// Signs like the signBlob service would.
pub fn sign(i: usize, message: &[u8]) -> Vec<u8> {
    let p = pair(i);
    let mut sig = vec![0; p.public().modulus_len()];
    p.sign(
        &ring::signature::RSA_PKCS1_SHA256,
        &ring::rand::SystemRandom::new(),
        message,
        &mut sig,
    )
    .unwrap();
    sig
}
