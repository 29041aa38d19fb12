//! Ed25519: key derivation, signing, and the semantics of the native
//! precompile (agave-precompiles 2.3.5 `ed25519::verify`, strict mode).

use {
    ed25519_dalek::{ExpandedSecretKey, Keypair, PublicKey, SecretKey, Signature, Signer},
    solana_program::{hash::hashv, pubkey::Pubkey},
    std::{cell::RefCell, collections::HashMap},
};

pub struct Key {
    kp: Keypair,
}

impl Key {
    pub fn new(tag: &str) -> Self {
        let seed = hashv(&[b"verif-key", tag.as_bytes()]).to_bytes();
        let secret = SecretKey::from_bytes(&seed).unwrap();
        let public = PublicKey::from(&secret);
        Self { kp: Keypair { secret, public } }
    }
    pub fn pubkey(&self) -> Pubkey {
        Pubkey::new_from_array(self.kp.public.to_bytes())
    }
    pub fn sign(&self, m: &[u8]) -> [u8; 64] {
        self.kp.sign(m).to_bytes()
    }
    pub fn to_bytes(&self) -> [u8; 64] {
        self.kp.to_bytes()
    }
    /// A second valid signature over `m` (a signer who does not follow the
    /// deterministic nonce rule): same scalar, different nonce prefix.
    pub fn sign_again(&self, m: &[u8]) -> [u8; 64] {
        let e = ExpandedSecretKey::from(&self.kp.secret);
        let mut b = e.to_bytes();
        for x in b[32..].iter_mut() {
            *x ^= 0x5a;
        }
        ExpandedSecretKey::from_bytes(&b).unwrap().sign(m, &self.kp.public).to_bytes()
    }
}

thread_local! {
    static MEMO: RefCell<HashMap<[u8; 32], bool>> = RefCell::new(HashMap::new());
}

pub fn verify(pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    let key = hashv(&[pk, sig, msg]).to_bytes();
    if let Some(r) = MEMO.with(|m| m.borrow().get(&key).copied()) {
        return r;
    }
    let r = (|| {
        let sig = <Signature as ed25519_dalek::ed25519::signature::Signature>::from_bytes(sig).ok()?;
        let pk = PublicKey::from_bytes(pk).ok()?;
        pk.verify_strict(msg, &sig).ok()
    })()
    .is_some();
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 200_000 {
            m.clear();
        }
        m.insert(key, r);
    });
    r
}

/// One successfully verified signature.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Verified {
    pub pubkey: Vec<u8>,
    pub message: Vec<u8>,
    pub signature: Vec<u8>,
}

fn slice<'a>(
    own: &'a [u8],
    datas: &[&'a [u8]],
    ix: u16,
    start: u16,
    size: usize,
) -> Result<&'a [u8], ()> {
    let d = if ix == u16::MAX { own } else { *datas.get(ix as usize).ok_or(())? };
    d.get(start as usize..start as usize + size).ok_or(())
}

/// The precompile: everything it verified, or an error.
pub fn precompile(data: &[u8], datas: &[&[u8]]) -> Result<Vec<Verified>, ()> {
    if data.len() < 2 {
        return Err(());
    }
    let n = data[0] as usize;
    if n == 0 && data.len() > 2 {
        return Err(());
    }
    if data.len() < 2 + 14 * n {
        return Err(());
    }
    let mut out = vec![];
    for i in 0..n {
        let f = |k: usize| {
            let o = 2 + 14 * i + 2 * k;
            u16::from_le_bytes([data[o], data[o + 1]])
        };
        let sig = slice(data, datas, f(1), f(0), 64)?;
        let pk = slice(data, datas, f(3), f(2), 32)?;
        let msg = slice(data, datas, f(6), f(4), f(5) as usize)?;
        if !verify(pk, msg, sig) {
            return Err(());
        }
        out.push(Verified { pubkey: pk.to_vec(), message: msg.to_vec(), signature: sig.to_vec() });
    }
    Ok(out)
}

/// Build the data of a precompile instruction from raw header and entries
/// `(sig_off, sig_ix, pk_off, pk_ix, msg_off, msg_size, msg_ix)`.
pub fn precompile_data(count: u8, pad: u8, entries: &[[u16; 7]], tail: &[u8]) -> Vec<u8> {
    let mut d = vec![count, pad];
    for e in entries {
        for x in e {
            d.extend_from_slice(&x.to_le_bytes());
        }
    }
    d.extend_from_slice(tail);
    d
}
