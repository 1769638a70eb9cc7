//! Reference model: a map from keywords to the set of their live associations.
use std::collections::{BTreeMap, BTreeSet};

use crate::sim::Bytes;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Iv {
    D(Bytes),
    P(Bytes),
}

pub type Assoc = (Bytes, Iv);

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Cred {
    pub key: [u8; 16],
    pub label: Bytes,
}

impl Cred {
    pub fn new(k: u8, label: &str) -> Self {
        let mut key = [0x5Au8; 16];
        for (i, b) in key.iter_mut().enumerate() {
            *b = b.wrapping_mul(i as u8 + 1) ^ k.wrapping_mul(37).wrapping_add(i as u8);
        }
        Self {
            key,
            label: label.as_bytes().to_vec(),
        }
    }

    pub fn show(&self) -> String {
        format!("{:02x}{:02x}../{}", self.key[0], self.key[1], show(&self.label))
    }
}

pub type Live = BTreeMap<Bytes, BTreeSet<Iv>>;

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Model {
    pub live: Live,
}

impl Model {
    pub fn add(&mut self, assocs: &[Assoc]) {
        for (k, v) in assocs {
            self.live.entry(k.clone()).or_default().insert(v.clone());
        }
    }

    pub fn del(&mut self, assocs: &[Assoc]) {
        for (k, v) in assocs {
            self.live.entry(k.clone()).or_default().remove(v);
        }
    }

    /// Data dropped by a filter at full rate.
    pub fn retain_data(&mut self, keep: impl Fn(&Bytes) -> bool) {
        for set in self.live.values_mut() {
            set.retain(|iv| match iv {
                Iv::D(d) => keep(d),
                Iv::P(_) => true,
            });
        }
    }

    pub fn of(&self, kw: &[u8]) -> BTreeSet<Iv> {
        self.live.get(kw).cloned().unwrap_or_default()
    }

    pub fn all_data(&self) -> BTreeSet<Bytes> {
        self.live
            .values()
            .flatten()
            .filter_map(|iv| match iv {
                Iv::D(d) => Some(d.clone()),
                Iv::P(_) => None,
            })
            .collect()
    }

    /// Keywords reachable from `kw`, itself included.
    pub fn reachable(&self, kw: &[u8]) -> BTreeSet<Bytes> {
        reachable(&self.live, kw)
    }

    /// What a search of `kw` must return.
    pub fn search(&self, kw: &[u8]) -> BTreeSet<Bytes> {
        data_of(&self.live, &self.reachable(kw))
    }

    pub fn assocs(&self) -> BTreeSet<Assoc> {
        self.live
            .iter()
            .flat_map(|(k, s)| s.iter().map(|iv| (k.clone(), iv.clone())))
            .collect()
    }
}

pub fn reachable(live: &Live, kw: &[u8]) -> BTreeSet<Bytes> {
    let mut seen = BTreeSet::from([kw.to_vec()]);
    let mut todo = vec![kw.to_vec()];
    while let Some(k) = todo.pop() {
        for iv in live.get(&k).into_iter().flatten() {
            if let Iv::P(p) = iv {
                if seen.insert(p.clone()) {
                    todo.push(p.clone());
                }
            }
        }
    }
    seen
}

pub fn data_of(live: &Live, kws: &BTreeSet<Bytes>) -> BTreeSet<Bytes> {
    kws.iter()
        .filter_map(|k| live.get(k))
        .flatten()
        .filter_map(|iv| match iv {
            Iv::D(d) => Some(d.clone()),
            Iv::P(_) => None,
        })
        .collect()
}

pub fn d(s: &str) -> Iv {
    Iv::D(s.as_bytes().to_vec())
}

pub fn p(s: &str) -> Iv {
    Iv::P(s.as_bytes().to_vec())
}

pub fn kw(s: &str) -> Bytes {
    s.as_bytes().to_vec()
}

pub fn a(k: &str, iv: Iv) -> Assoc {
    (kw(k), iv)
}

pub fn show(b: &[u8]) -> String {
    if b.len() <= 24 && b.iter().all(|c| (0x20..0x7f).contains(c)) {
        String::from_utf8_lossy(b).into_owned()
    } else {
        let hex = b.iter().take(12).map(|c| format!("{c:02x}")).collect::<String>();
        format!("<{} bytes {hex}..>", b.len())
    }
}

pub fn show_iv(iv: &Iv) -> String {
    match iv {
        Iv::D(d) => format!("data:{}", show(d)),
        Iv::P(p) => format!("->{}", show(p)),
    }
}

pub fn show_assocs(assocs: &[Assoc]) -> String {
    assocs
        .iter()
        .map(|(k, v)| format!("{} {}", show(k), show_iv(v)))
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn show_set(s: &BTreeSet<Bytes>) -> String {
    format!("{{{}}}", s.iter().map(|b| show(b)).collect::<Vec<_>>().join(", "))
}

pub fn show_ivs(s: &BTreeSet<Iv>) -> String {
    format!("{{{}}}", s.iter().map(show_iv).collect::<Vec<_>>().join(", "))
}
