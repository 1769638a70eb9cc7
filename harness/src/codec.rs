//! Independent reader/writer of the storage format (documentation/serialization.md): shares no code
//! with the crate under test besides the cryptographic primitives.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use cosmian_crypto_core::{
    Aes256Gcm, DemInPlace, FixedSizeCBytes, Instantiable, Nonce, SymmetricKey,
};
use cosmian_findex::{EncryptedValue, Token, ENTRY_LENGTH, LINK_LENGTH};
use tiny_keccak::{Hasher, IntoXof, Kmac, Sha3, Shake, Xof};

use crate::{
    model::{Assoc, Cred, Iv},
    sim::{Bytes, Snap},
};

const ET_INFO: &[u8] = b"Entry Table key derivation info.";
const CT_INFO: &[u8] = b"Chain Table key derivation info.";
const BLOCK: usize = 16;
const WIDTH: usize = 5;

fn shake(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Shake::v256();
    for p in parts {
        h.update(p);
    }
    let mut out = [0; 32];
    h.finalize(&mut out);
    out
}

fn kmac(key: &[u8; 32], parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Kmac::v256(key, b"");
    for p in parts {
        h.update(p);
    }
    let mut out = [0; 32];
    h.into_xof().squeeze(&mut out);
    out
}

pub fn hash_kw(kw: &[u8]) -> [u8; 32] {
    let mut h = Sha3::v256();
    h.update(kw);
    let mut out = [0; 32];
    h.finalize(&mut out);
    out
}

#[derive(Clone)]
pub struct Keys {
    pub token: [u8; 32],
    pub value: [u8; 32],
}

pub fn et_keys(seed: &[u8; 16]) -> Keys {
    Keys {
        token: shake(&[seed, ET_INFO, b"KMAC key"]),
        value: shake(&[seed, ET_INFO, b"DEM key"]),
    }
}

pub fn ct_keys(seed: &[u8; 16]) -> Keys {
    Keys {
        token: shake(&[seed, CT_INFO, b"KMAC key"]),
        value: shake(&[seed, CT_INFO, b"DEM key"]),
    }
}

pub fn et_token(keys: &Keys, kw_hash: &[u8; 32], label: &[u8]) -> [u8; 32] {
    kmac(&keys.token, &[kw_hash, label])
}

/// Entry-table token of a keyword.
pub fn kw_token(cred: &Cred, kw: &[u8]) -> [u8; 32] {
    et_token(&et_keys(&cred.key), &hash_kw(kw), &cred.label)
}

pub fn ct_next(keys: &Keys, prev: &[u8; 32]) -> [u8; 32] {
    kmac(&keys.token, &[prev, CT_INFO])
}

fn open<const N: usize>(key: &[u8; 32], v: &EncryptedValue<N>) -> Option<[u8; N]> {
    let key = SymmetricKey::try_from_bytes(*key).unwrap();
    let mut res = v.ciphertext;
    Aes256Gcm::new(&key)
        .decrypt_in_place_detached(&v.nonce, &mut res, &v.tag, None)
        .ok()
        .map(|()| res)
}

fn seal<const N: usize>(key: &[u8; 32], nonce: [u8; 12], v: [u8; N]) -> EncryptedValue<N> {
    let key = SymmetricKey::try_from_bytes(*key).unwrap();
    let nonce = Nonce::from(nonce);
    let mut ciphertext = v;
    let t = Aes256Gcm::new(&key)
        .encrypt_in_place_detached(&nonce, &mut ciphertext, None)
        .unwrap();
    let mut tag = [0; 16];
    tag.copy_from_slice(t.as_slice());
    EncryptedValue {
        ciphertext,
        tag,
        nonce,
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct EntryRow {
    pub token: [u8; 32],
    pub seed: [u8; 16],
    pub kw_hash: [u8; 32],
    pub last: Option<[u8; 32]>,
    /// Tokens of the chain, in order.
    pub chain: Vec<[u8; 32]>,
    /// Number of chain rows missing from the chain table.
    pub missing: usize,
    /// For each stored link, the list of (is addition, value bytes) terminated in it.
    pub links: Vec<Vec<(bool, Bytes)>>,
}

impl EntryRow {
    /// Live values of the chain, as raw bytes (prefix included).
    pub fn live_raw(&self) -> BTreeSet<Bytes> {
        let mut res = BTreeSet::new();
        for (add, v) in self.links.iter().flatten() {
            if *add {
                res.insert(v.clone());
            } else {
                res.remove(v);
            }
        }
        res
    }
}

#[derive(Debug, Default)]
pub struct Decoded {
    /// Entries that can be opened with the key.
    pub entries: Vec<EntryRow>,
    /// Entry rows that cannot be opened with the key.
    pub foreign: Vec<[u8; 32]>,
    /// Chain rows that no opened entry explains.
    pub orphans: Vec<[u8; 32]>,
}

/// Maximal length of a chain followed by the reader.
const MAX_CHAIN: usize = 20_000;

pub fn decode_entry(keys: &Keys, token: [u8; 32], v: &EncryptedValue<ENTRY_LENGTH>) -> Option<EntryRow> {
    let p = open(&keys.value, v)?;
    assert_eq!(p.len(), 80);
    let mut last = [0; 32];
    last.copy_from_slice(&p[..32]);
    let mut seed = [0; 16];
    seed.copy_from_slice(&p[32..48]);
    let mut kw_hash = [0; 32];
    kw_hash.copy_from_slice(&p[48..]);
    Some(EntryRow {
        token,
        seed,
        kw_hash,
        last: (last != [0; 32]).then_some(last),
        chain: Vec::new(),
        missing: 0,
        links: Vec::new(),
    })
}

/// Decodes a link into (is addition, flag, 16 bytes).
fn blocks(p: &[u8; LINK_LENGTH]) -> Vec<(bool, u8, [u8; 16])> {
    assert_eq!(p.len(), 86);
    (0..WIDTH)
        .map(|i| {
            let b = &p[1 + i * 17..1 + (i + 1) * 17];
            let mut data = [0; 16];
            data.copy_from_slice(&b[1..]);
            ((p[0] >> i) & 1 == 1, b[0], data)
        })
        .collect()
}

/// Reads both tables with the given key. `Err`: something does not follow the format.
pub fn decode(snap: &Snap, key: &[u8; 16]) -> Result<Decoded, String> {
    let keys = et_keys(key);
    let mut res = Decoded::default();
    let mut explained: HashMap<[u8; 32], [u8; 32]> = HashMap::new();
    let mut et = snap.et.iter().collect::<Vec<_>>();
    et.sort_by_key(|(t, _)| <[u8; 32]>::from(**t));
    for (token, v) in et {
        let token = <[u8; 32]>::from(*token);
        let Some(mut e) = decode_entry(&keys, token, v) else {
            res.foreign.push(token);
            continue;
        };
        if let Some(last) = e.last {
            let ck = ct_keys(&e.seed);
            let mut t = e.kw_hash;
            loop {
                t = ct_next(&ck, &t);
                e.chain.push(t);
                if t == last {
                    break;
                }
                if e.chain.len() > MAX_CHAIN + 2 * snap.ct.len() {
                    return Err("the last token of an entry is not in its chain".to_string());
                }
            }
            let mut stack: Option<(bool, Bytes)> = None;
            for t in &e.chain {
                if let Some(other) = explained.insert(*t, token) {
                    if other != token {
                        // Two entries own the same chain row (an interrupted compaction leaves the
                        // old entries next to the new ones): legal for the reader.
                    }
                }
                let Some(row) = snap.ct.get(&Token::from(*t)) else {
                    e.missing += 1;
                    if stack.is_some() {
                        return Err("a value is cut by a missing link".to_string());
                    }
                    continue;
                };
                let Some(p) = open(&ck.value, row) else {
                    return Err("a chain row cannot be opened with its chain key".to_string());
                };
                let mut link = Vec::new();
                let mut padding = false;
                if p[0] >> WIDTH != 0 {
                    return Err("unused operation bits are set".to_string());
                }
                for (add, flag, data) in blocks(&p) {
                    if !add && flag == 0 && data == [0; 16] && stack.is_none() {
                        padding = true;
                        continue;
                    }
                    if padding {
                        return Err("a block follows the padding of its link".to_string());
                    }
                    match &mut stack {
                        Some((op, v)) => {
                            if *op != add {
                                return Err("a value mixes operations".to_string());
                            }
                            if flag == 255 {
                                v.extend(data);
                            } else if flag as usize <= BLOCK {
                                v.extend(&data[..flag as usize]);
                                if data[flag as usize..].iter().any(|b| *b != 0) {
                                    return Err("the padding of a block is not null".to_string());
                                }
                                link.push(stack.take().unwrap());
                            } else {
                                return Err(format!("block flag {flag}"));
                            }
                        }
                        None => {
                            if flag == 255 {
                                stack = Some((add, data.to_vec()));
                            } else if flag as usize <= BLOCK {
                                if data[flag as usize..].iter().any(|b| *b != 0) {
                                    return Err("the padding of a block is not null".to_string());
                                }
                                link.push((add, data[..flag as usize].to_vec()));
                            } else {
                                return Err(format!("block flag {flag}"));
                            }
                        }
                    }
                }
                e.links.push(link);
            }
            if stack.is_some() {
                return Err("the last value of a chain is cut".to_string());
            }
        }
        res.entries.push(e);
    }
    let mut orphans = snap
        .ct
        .keys()
        .map(|t| <[u8; 32]>::from(*t))
        .filter(|t| !explained.contains_key(t))
        .collect::<Vec<_>>();
    orphans.sort_unstable();
    res.orphans = orphans;
    Ok(res)
}

pub fn to_raw(iv: &Iv) -> Bytes {
    match iv {
        Iv::D(d) => [b"l".as_slice(), d].concat(),
        Iv::P(p) => [b"w".as_slice(), p].concat(),
    }
}

pub fn from_raw(raw: &[u8]) -> Option<Iv> {
    match raw.first()? {
        b'l' => Some(Iv::D(raw[1..].to_vec())),
        b'w' => Some(Iv::P(raw[1..].to_vec())),
        _ => None,
    }
}

/// Number of links needed to store these values in one go.
pub fn links_needed<'a>(raws: impl Iterator<Item = &'a Bytes>) -> usize {
    let blocks: usize = raws.map(|r| r.len() / BLOCK + 1).sum();
    blocks.div_ceil(WIDTH)
}

/// Finds the live associations of the keywords of `universe` under `cred`. Entries of other keywords
/// or labels are reported in `unknown`.
pub struct View {
    pub live: BTreeMap<Bytes, BTreeSet<Iv>>,
    pub unknown: usize,
    pub decoded: Decoded,
}

pub fn view(snap: &Snap, cred: &Cred, universe: &BTreeSet<Bytes>) -> Result<View, String> {
    let decoded = decode(snap, &cred.key)?;
    let keys = et_keys(&cred.key);
    let by_hash: BTreeMap<[u8; 32], &Bytes> = universe.iter().map(|k| (hash_kw(k), k)).collect();
    let mut live = BTreeMap::new();
    let mut unknown = 0;
    for e in &decoded.entries {
        match by_hash.get(&e.kw_hash) {
            Some(kw) if e.token == et_token(&keys, &e.kw_hash, &cred.label) => {
                let mut set = BTreeSet::new();
                for raw in e.live_raw() {
                    set.insert(from_raw(&raw).ok_or("a value has an unknown prefix")?);
                }
                live.insert((*kw).clone(), set);
            }
            _ => unknown += 1,
        }
    }
    Ok(View {
        live,
        unknown,
        decoded,
    })
}

/// Canonical digest of both tables for the given credentials: independent of keys, nonces and tokens.
pub fn digest(snap: &Snap, creds: &[Cred], universe: &BTreeSet<Bytes>) -> u64 {
    use std::hash::{Hash, Hasher as _};
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    let mut foreign = snap.et.len();
    let mut seen_keys = BTreeSet::new();
    let hashes = universe
        .iter()
        .enumerate()
        .map(|(i, k)| (hash_kw(k), i))
        .collect::<HashMap<_, _>>();
    let mut explained = BTreeSet::new();
    for c in creds {
        if !seen_keys.insert(c.key) {
            continue;
        }
        match decode(snap, &c.key) {
            Err(e) => e.hash(&mut h),
            Ok(d) => {
                foreign -= d.entries.len().min(foreign);
                let keys = et_keys(&c.key);
                let mut items = Vec::new();
                for e in &d.entries {
                    explained.extend(e.chain.iter().copied());
                    let kw = hashes.get(&e.kw_hash).copied();
                    let label = creds
                        .iter()
                        .position(|c2| {
                            c2.key == c.key
                                && et_token(&keys, &e.kw_hash, &c2.label) == e.token
                        });
                    let mut links = e.links.clone();
                    for l in &mut links {
                        l.sort();
                    }
                    items.push((label, kw, e.missing, links));
                }
                items.sort();
                items.hash(&mut h);
            }
        }
    }
    foreign.hash(&mut h);
    let orphans = snap
        .ct
        .keys()
        .filter(|t| !explained.contains(&<[u8; 32]>::from(**t)))
        .count();
    orphans.hash(&mut h);
    h.finish()
}

/// Deterministic hasher.
pub struct Fnv(pub u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        crate::rng::mix(self.0)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
}

pub fn hash64(v: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher as _;
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    v.hash(&mut h);
    h.finish()
}

/// Writer: builds an entry and its chain. `layout` gives for each link the blocks it holds.
pub struct Writer {
    pub snap: Snap,
    ctr: u64,
}

/// A block: (is addition, flag, data).
pub type Block = (bool, u8, [u8; 16]);

/// Splits a value into blocks.
pub fn value_blocks(add: bool, raw: &[u8]) -> Vec<Block> {
    let full = raw.len() / BLOCK;
    let mut res = Vec::new();
    for i in 0..full {
        let mut d = [0; 16];
        d.copy_from_slice(&raw[i * BLOCK..(i + 1) * BLOCK]);
        res.push((add, 255, d));
    }
    let rest = &raw[full * BLOCK..];
    let mut d = [0; 16];
    d[..rest.len()].copy_from_slice(rest);
    res.push((add, rest.len() as u8, d));
    res
}

impl Writer {
    pub fn new() -> Self {
        Self {
            snap: Snap {
                et: HashMap::new(),
                ct: HashMap::new(),
            },
            ctr: 1,
        }
    }

    fn rnd<const N: usize>(&mut self) -> [u8; N] {
        let mut out = [0; N];
        for c in out.chunks_mut(8) {
            let v = crate::rng::mix(0xABCD_EF00 ^ self.ctr).to_le_bytes();
            self.ctr += 1;
            c.copy_from_slice(&v[..c.len()]);
        }
        out
    }

    /// `links`: up to five blocks per link; `drop`: links that are not stored.
    pub fn entry(&mut self, cred: &Cred, kw: &[u8], links: &[Vec<Block>], drop: &[usize]) {
        let seed: [u8; 16] = self.rnd();
        let ck = ct_keys(&seed);
        let kw_hash = hash_kw(kw);
        let mut t = kw_hash;
        let mut last = [0; 32];
        for (i, blocks) in links.iter().enumerate() {
            assert!(blocks.len() <= WIDTH);
            t = ct_next(&ck, &t);
            last = t;
            let mut p = [0; LINK_LENGTH];
            for (pos, (add, flag, data)) in blocks.iter().enumerate() {
                if *add {
                    p[0] |= 1 << pos;
                }
                p[1 + pos * 17] = *flag;
                p[2 + pos * 17..1 + (pos + 1) * 17].copy_from_slice(data);
            }
            if !drop.contains(&i) {
                let nonce = self.rnd();
                self.snap
                    .ct
                    .insert(Token::from(t), seal(&ck.value, nonce, p));
            }
        }
        let keys = et_keys(&cred.key);
        let mut p = [0; ENTRY_LENGTH];
        p[..32].copy_from_slice(&last);
        p[32..48].copy_from_slice(&seed);
        p[48..].copy_from_slice(&kw_hash);
        let nonce = self.rnd();
        self.snap.et.insert(
            Token::from(et_token(&keys, &kw_hash, &cred.label)),
            seal(&keys.value, nonce, p),
        );
    }
}

/// Associations found by the independent reader.
pub fn assocs(view: &View) -> BTreeSet<Assoc> {
    view.live
        .iter()
        .flat_map(|(k, s)| s.iter().map(|iv| (k.clone(), iv.clone())))
        .collect()
}
