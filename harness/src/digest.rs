//! Digests used by the oracles, with known-answer tests run at start-up.
use blake2::digest::{Update, VariableOutput};
use sha2::Digest;
use serde::{Serialize, Deserialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum H { Sha, B2, B3 }
pub const ALL_H: [H; 3] = [H::Sha, H::B2, H::B3];

impl H {
    pub fn name(self) -> &'static str {
        match self { H::Sha => "sha512/256", H::B2 => "blake2b/256", H::B3 => "blake3/256" }
    }
    pub fn parse(s: &str) -> Option<H> { ALL_H.iter().cloned().find(|h| h.name() == s) }
    pub fn real(self) -> dir_signature::HashType {
        match self {
            H::Sha => dir_signature::HashType::sha512_256(),
            H::B2 => dir_signature::HashType::blake2b_256(),
            H::B3 => dir_signature::HashType::blake3_256(),
        }
    }
    pub fn digest(self, data: &[u8]) -> [u8; 32] {
        let mut out = [0u8; 32];
        match self {
            H::Sha => out.copy_from_slice(&sha2::Sha512Trunc256::digest(data)),
            H::B2 => {
                let mut h = blake2::VarBlake2b::new(32).unwrap();
                h.update(data);
                h.finalize_variable(|r| out.copy_from_slice(r));
            }
            H::B3 => out.copy_from_slice(blake3::hash(data).as_bytes()),
        }
        out
    }
}

pub fn hex(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() * 2);
    for b in d { s.push_str(&format!("{:02x}", b)); }
    s
}

pub fn self_test() {
    let kat = [
        (H::Sha, "53048e2681941ef99b2e29b76b4c7dabe4c2d0c634fc6d46e0e2f13107e7af23"),
        (H::B2, "bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319"),
        (H::B3, "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85"),
    ];
    for (h, want) in kat.iter() {
        if hex(&h.digest(b"abc")) != *want { crate::runner::infra(&format!("KAT of {:?} failed", h)); }
    }
}
