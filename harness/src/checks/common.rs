//! Shared drivers: a world (tables, credentials, reference model) and histories of operations.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

use crate::{
    codec,
    explore::Exec,
    model::{show, show_assocs, show_set, Assoc, Cred, Iv, Live, Model},
    ops,
    rng,
    sim::{go, Bytes, Fx, Snap, Sys},
};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Renew {
    Label,
    Key,
    Both,
    /// Back to the credentials before the current ones, if any; otherwise as `Label`.
    Back,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Filter {
    KeepAll,
    /// Keeps everything but this data.
    Drop(BTreeSet<Bytes>),
    /// Returns this data in addition to what it is given.
    Extra(Bytes),
    /// Returns nothing.
    KeepNone,
}

impl Filter {
    pub fn apply(&self, mut data: BTreeSet<Bytes>) -> BTreeSet<Bytes> {
        match self {
            Self::KeepAll => data,
            Self::Drop(x) => data.difference(x).cloned().collect(),
            Self::Extra(x) => {
                data.insert(x.clone());
                data
            }
            Self::KeepNone => BTreeSet::new(),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Self::KeepAll => "keep all".into(),
            Self::Drop(x) => format!("drop {}", show_set(x)),
            Self::Extra(x) => format!("keep all and return {}", show(x)),
            Self::KeepNone => "keep none".into(),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    Add(Vec<Assoc>),
    Del(Vec<Assoc>),
    Search(Vec<Bytes>),
    Compact(Renew, f64, Filter),
}

impl Op {
    pub fn show(&self) -> String {
        match self {
            Self::Add(a) => format!("add [{}]", show_assocs(a)),
            Self::Del(a) => format!("delete [{}]", show_assocs(a)),
            Self::Search(k) => format!(
                "search [{}]",
                k.iter().map(|k| show(k)).collect::<Vec<_>>().join(", ")
            ),
            Self::Compact(r, rate, f) => {
                format!("compact renewing {r:?} at rate {rate}, filter: {}", f.show())
            }
        }
    }
}

pub struct World {
    pub sys: Sys,
    /// Credentials used so far; the last ones are current.
    pub creds: Vec<Cred>,
    pub model: Model,
    pub universe: BTreeSet<Bytes>,
    n_keys: u32,
    n_labels: u32,
}

/// What a compaction did.
pub struct Compacted {
    /// Arguments of the calls of the filter.
    pub given: Vec<BTreeSet<Bytes>>,
    /// Keywords whose chain was rewritten.
    pub rewritten: BTreeSet<Bytes>,
    pub before: Snap,
    pub after: Snap,
}

impl World {
    pub fn new(universe: &[&str]) -> Self {
        Self {
            sys: Sys::new(),
            creds: vec![Cred::new(0, "label-0")],
            model: Model::default(),
            universe: universe.iter().map(|s| s.as_bytes().to_vec()).collect(),
            n_keys: 0,
            n_labels: 0,
        }
    }

    pub fn cur(&self) -> Cred {
        self.creds.last().expect("never empty").clone()
    }

    pub fn next_cred(&mut self, renew: Renew) -> Cred {
        let mut c = self.cur();
        if renew == Renew::Back {
            if let Some(former) = self.creds.iter().rev().find(|x| **x != c) {
                return former.clone();
            }
        }
        if matches!(renew, Renew::Key | Renew::Both) {
            self.n_keys += 1;
            c.key = Cred::new(self.n_keys as u8, "").key;
            for (x, y) in c.key[8..].iter_mut().zip((self.n_keys >> 8).to_le_bytes()) {
                *x ^= y;
            }
        }
        if renew != Renew::Key {
            self.n_labels += 1;
            c.label = format!("label-{}", self.n_labels).into_bytes();
        }
        c
    }

    pub fn digest(&self) -> u64 {
        codec::digest(&self.sys.snap(), &self.creds, &self.universe)
    }

    /// Entry tokens present in the entry table for the keywords of the universe.
    pub fn present(&self, cred: &Cred) -> BTreeSet<Bytes> {
        let snap = self.sys.snap();
        self.universe
            .iter()
            .filter(|k| {
                snap.et
                    .contains_key(&cosmian_findex::Token::from(codec::kw_token(cred, k)))
            })
            .cloned()
            .collect()
    }

    pub fn add(&mut self, fx: &Fx, a: &[Assoc]) -> Result<BTreeSet<Bytes>, String> {
        let res = go(ops::add(fx, &self.cur(), a)).map_err(|e| format!("add failed: {e}"))?;
        self.model.add(a);
        Ok(res)
    }

    pub fn del(&mut self, fx: &Fx, a: &[Assoc]) -> Result<BTreeSet<Bytes>, String> {
        let res = go(ops::del(fx, &self.cur(), a)).map_err(|e| format!("delete failed: {e}"))?;
        self.model.del(a);
        Ok(res)
    }

    pub fn search(&self, fx: &Fx, kws: &[Bytes]) -> Result<ops::Found, String> {
        go(ops::search(fx, &self.cur(), kws)).map_err(|e| format!("search failed: {e}"))
    }

    /// Chain seed of each keyword of the current index.
    pub fn seeds(snap: &Snap, key: &[u8; 16]) -> Result<BTreeMap<[u8; 32], [u8; 16]>, String> {
        Ok(codec::decode(snap, key)?
            .entries
            .into_iter()
            .map(|e| (e.kw_hash, e.seed))
            .collect())
    }

    /// Compacts towards fresh credentials and updates the model. The effect of the filter is modelled
    /// on the chains that were rewritten.
    pub fn compact(
        &mut self,
        fx: &Fx,
        renew: Renew,
        rate: f64,
        filter: &Filter,
    ) -> Result<Compacted, String> {
        let old = self.cur();
        let new = self.next_cred(renew);
        let before = self.sys.snap();
        let given = Rc::new(RefCell::new(Vec::new()));
        let g = given.clone();
        go(ops::compact_with(fx, &old, &new, rate, move |data| {
            g.borrow_mut().push(data.clone());
            Ok(filter.apply(data))
        }))
        .map_err(|e| format!("compact failed: {e}"))?;
        let after = self.sys.snap();
        let given = given.borrow().clone();
        // Only the data seen by the filter can be dropped, and only from the rewritten chains.
        let s0 = Self::seeds(&before, &old.key)?;
        let s1 = Self::seeds(&after, &new.key)?;
        let rewritten = self
            .universe
            .iter()
            .filter(|k| {
                let h = codec::hash_kw(k);
                s0.contains_key(&h) && s0.get(&h) != s1.get(&h)
            })
            .cloned()
            .collect::<BTreeSet<_>>();
        for (k, set) in &mut self.model.live {
            if rewritten.contains(k) {
                set.retain(|iv| match iv {
                    Iv::D(d) => {
                        filter.apply(BTreeSet::from([d.clone()])).contains(d)
                    }
                    Iv::P(_) => true,
                });
            }
        }
        self.creds.push(new);
        Ok(Compacted {
            given,
            rewritten,
            before,
            after,
        })
    }

    /// Executes an operation; a search is compared with the model.
    pub fn apply(&mut self, exec: &mut Exec, fx: &Fx, op: &Op) -> Result<(), String> {
        exec.transitions += 1;
        match op {
            Op::Add(a) => self.add(fx, a).map(|_| ()),
            Op::Del(a) => self.del(fx, a).map(|_| ()),
            Op::Search(k) => self.check_search(exec, fx, k),
            Op::Compact(r, rate, f) => self.compact(fx, *r, *rate, f).map(|_| ()),
        }
    }

    /// Searches under the current credentials and compares with the model.
    pub fn check_search(&self, exec: &mut Exec, fx: &Fx, kws: &[Bytes]) -> Result<(), String> {
        let found = self.search(fx, kws)?;
        exec.validated += 1;
        compare(&self.model, kws, &found)
    }

    /// Searches under all former credentials must find nothing.
    pub fn check_former(&self, exec: &mut Exec, fx: &Fx, kws: &[Bytes]) -> Result<(), String> {
        let cur = self.cur();
        for c in &self.creds {
            if *c == cur {
                continue;
            }
            let found = go(ops::search(fx, c, kws)).map_err(|e| format!("search failed: {e}"))?;
            exec.validated += 1;
            if let Some((k, s)) = found.iter().find(|(_, s)| !s.is_empty()) {
                return Err(format!(
                    "former credentials {} still find {} for {}",
                    c.show(),
                    show_set(s),
                    show(k)
                ));
            }
        }
        Ok(())
    }
}

pub fn compare(model: &Model, kws: &[Bytes], found: &ops::Found) -> Result<(), String> {
    let requested = kws.iter().cloned().collect::<BTreeSet<_>>();
    let returned = found.keys().cloned().collect::<BTreeSet<_>>();
    if requested != returned {
        return Err(format!(
            "search of {} answered for {}",
            show_set(&requested),
            show_set(&returned)
        ));
    }
    for k in kws {
        let want = model.search(k);
        if found[k] != want {
            return Err(format!(
                "search of {} found {} instead of {}",
                show(k),
                show_set(&found[k]),
                show_set(&want)
            ));
        }
    }
    Ok(())
}

/// Explores `n` seeds of the deterministic randomness (keys, nonces, hash iteration orders). Must be
/// called first.
pub fn vary_seed(exec: &mut Exec, n: usize) -> usize {
    let c = exec.choose(n);
    rng::seed_thread(rng::mix(exec.seed ^ ((c as u64) << 32) ^ 0x5EED));
    c
}

/// Explores the orders in which the storage returns rows.
pub fn vary_order(exec: &mut Exec, sys: &Sys) {
    let o = exec.choose(3);
    sys.ctl.fetch_order.set(o as u8);
}

/// A value of `len` bytes.
pub fn blob(len: usize, tag: u8) -> Bytes {
    (0..len)
        .map(|i| (i as u8).wrapping_mul(31).wrapping_add(tag) ^ (i >> 8) as u8)
        .collect()
}

/// Reads the associations of these keywords through the search interface (the interruption callback
/// receives them), and what the search returned.
pub fn read(fx: &Fx, cred: &Cred, kws: &[Bytes]) -> Result<(Live, ops::Found), String> {
    let rounds = Rc::new(RefCell::new(Vec::new()));
    let found = go(ops::search_rounds(fx, cred, kws, &rounds, |_| ops::Cb::Continue))
        .map_err(|e| format!("search failed: {e}"))?;
    let mut live = Live::new();
    for r in rounds.borrow().iter() {
        for (k, s) in r {
            live.entry(k.clone()).or_default().extend(s.iter().cloned());
        }
    }
    live.retain(|_, s| !s.is_empty());
    Ok((live, found))
}

/// The associations of every keyword reachable from these ones are exactly those of the model, and the
/// search returns what the model does.
pub fn check_exact(
    exec: &mut Exec,
    fx: &Fx,
    cred: &Cred,
    model: &Model,
    kws: &[Bytes],
) -> Result<(), String> {
    let (live, found) = read(fx, cred, kws)?;
    exec.validated += 1;
    let mut want = Live::new();
    for k in kws {
        for r in model.reachable(k) {
            let s = model.of(&r);
            if !s.is_empty() {
                want.insert(r, s);
            }
        }
    }
    if live != want {
        let keys = live.keys().chain(want.keys()).collect::<BTreeSet<_>>();
        for k in keys {
            let (l, w) = (live.get(k), want.get(k));
            if l != w {
                let empty = BTreeSet::new();
                let (l, w) = (l.unwrap_or(&empty), w.unwrap_or(&empty));
                return Err(format!(
                    "keyword {}: unexpected {}, missing {}",
                    show(k),
                    crate::model::show_ivs(&l.difference(w).cloned().collect()),
                    crate::model::show_ivs(&w.difference(l).cloned().collect())
                ));
            }
        }
    }
    compare(model, kws, &found)
}

/// Big calls: long chains and many keywords.
pub fn volume(which: usize) -> Vec<Assoc> {
    let many = |n: usize| -> Vec<Assoc> {
        (0..n).map(|i| (b"a".to_vec(), Iv::D(format!("v{i}").into_bytes()))).collect()
    };
    match which {
        0 => many(700),
        1 => many(5600),
        2 => (0..1100)
            .map(|i| (format!("k{i}").into_bytes(), Iv::D(format!("v{}", i % 7).into_bytes())))
            .collect(),
        3 => (0..70)
            .flat_map(|i| {
                let k = format!("k{i}").into_bytes();
                (0..6)
                    .map(|j| (k.clone(), Iv::D(format!("value {j} of {i}").into_bytes())))
                    .chain([(k.clone(), Iv::P(b"k0".to_vec()))])
                    .collect::<Vec<_>>()
            })
            .collect(),
        _ => vec![
            (b"a".to_vec(), Iv::D(blob(20_000, 3))),
            (b"b".to_vec(), Iv::D(blob(9_000, 4))),
            (b"b".to_vec(), Iv::D(b"short".to_vec())),
        ],
    }
}

pub const VOLUMES: usize = 5;

pub const VOLUMES_TEXT: &str = "5 volumes (1 keyword x 700 or 5600 values, 1100 keywords x 1, 70 x 7, \
                                values of 9 000 and 20 000 bytes)";

/// A world whose universe covers these associations.
pub fn volume_world(v: &[Assoc]) -> World {
    let mut w = World::new(&["a", "b", "c"]);
    w.universe.extend(v.iter().map(|(k, _)| k.clone()));
    w
}

/// Every other association.
pub fn half(v: &[Assoc]) -> Vec<Assoc> {
    v.iter().step_by(2).cloned().collect()
}

/// Sizes around which thresholds are usually placed: powers of two and of ten, one less, one more.
pub fn sizes(min: usize, max: usize) -> Vec<usize> {
    let mut s = BTreeSet::new();
    for p in (0..usize::BITS).map(|k| 1usize << k).take_while(|p| *p <= max) {
        s.extend([p.saturating_sub(1), p, p + 1]);
    }
    let mut p = 1;
    while p <= max {
        s.extend([p - 1, p, p + 1]);
        p *= 10;
    }
    // 16-bit counters.
    s.insert((1 << 16) + 1);
    s.into_iter().filter(|n| *n >= min).collect()
}

/// Contents with one dimension of size `n`.
pub const DIMENSIONS: [&str; 6] = [
    "values of a keyword",
    "chain rows of a keyword",
    "keywords",
    "pointers of a keyword",
    "keywords of a path",
    "keywords of a value",
];

pub fn dimension(which: usize, n: usize) -> Vec<Assoc> {
    let k = |i: usize| format!("k{i}").into_bytes();
    let v = |i: usize| Iv::D(format!("v{i}").into_bytes());
    let root = b"root".to_vec();
    match which {
        0 => (0..n).map(|i| (root.clone(), v(i))).collect(),
        // 65 bytes with the type: the five blocks of a row.
        1 => (0..n).map(|i| (root.clone(), Iv::D(format!("{i:064}").into_bytes()))).collect(),
        2 => (0..n).map(|i| (k(i), v(i))).collect(),
        3 => (0..n)
            .flat_map(|i| {
                let mut a = vec![(root.clone(), Iv::P(k(i)))];
                if i % 3 != 1 {
                    a.push((k(i), v(i)));
                }
                a
            })
            .collect(),
        4 => (0..n)
            .flat_map(|i| {
                let mut a = vec![(k(i), Iv::P(k(i + 1)))];
                if i % 3 == 0 {
                    a.push((k(i), v(i)));
                }
                a
            })
            .chain([(k(n), v(n))])
            .collect(),
        _ => (0..n).map(|i| (k(i), v(0))).collect(),
    }
}

/// Some keywords of these contents.
pub fn dimension_keywords(which: usize, n: usize) -> Vec<Bytes> {
    let k = |i: usize| format!("k{i}").into_bytes();
    match which {
        0 | 1 | 3 => vec![b"root".to_vec()],
        4 => vec![k(0)],
        _ => (0..n).map(k).collect(),
    }
}

/// Contents of any dimension and size of the list.
pub fn sized(exec: &mut Exec, ns: &[usize]) -> (usize, usize, Vec<Assoc>) {
    let which = exec.choose(DIMENSIONS.len());
    let n = *exec.pick(ns);
    exec.say(|| format!("contents: {n} {}", DIMENSIONS[which]));
    (which, n, dimension(which, n))
}

pub fn sized_text(ns: &[usize]) -> String {
    format!(
        "{} dimensions ({}) x {} sizes up to {} (2^k and 10^k, one less, one more)",
        DIMENSIONS.len(),
        DIMENSIONS.join(", "),
        ns.len(),
        ns.last().copied().unwrap_or(0)
    )
}

/// The sizes of `sizes` up to `max` only.
pub fn sizes_to(max: usize) -> Vec<usize> {
    sizes(1, max).into_iter().filter(|n| *n <= max + 1).collect()
}

/// A cyclic sequence over `0..k` in which every word of length `n` occurs exactly once.
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn go(t: usize, p: usize, k: usize, n: usize, a: &mut [usize], out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        go(t + 1, p, k, n, a, out);
        for j in a[t - p] + 1..k {
            a[t] = j;
            go(t + 1, t, k, n, a, out);
        }
    }
    let mut out = Vec::new();
    go(1, 1, k, n, &mut vec![0; k * n + 1], &mut out);
    out
}

/// One long history by the same client(s): every sequence of `order` calls out of `ops` occurs in it. The calls are
/// renumbered by the choices, so that they come in other orders, and dealt to the clients.
pub fn marathon(
    exec: &mut Exec,
    ops: &[Op],
    order: usize,
    clients: usize,
    mut each: impl FnMut(&mut Exec, &mut World, &Fx, &Op) -> Result<(), String>,
) -> Result<World, String> {
    let k = ops.len();
    // The compactions come last: there is one in every few calls, until the end where there are only compactions.
    let (mut calls, compactions): (Vec<&Op>, Vec<&Op>) = ops.iter().partition(|op| !matches!(op, Op::Compact(..)));
    let n = calls.len();
    calls.rotate_left(exec.choose(n.min(8)) * n.div_ceil(8) % n);
    calls.extend(compactions);
    let mut w = World::new(&["a", "b", "c"]);
    w.sys.ctl.limit.set(1 << 40);
    let fxs = (0..clients).map(|_| w.sys.client()).collect::<Vec<_>>();
    let seq = de_bruijn(k, order);
    for (i, x) in seq.iter().chain(&seq[..order - 1]).enumerate() {
        let op = calls[*x];
        each(exec, &mut w, &fxs[i % clients], op).map_err(|e| format!("call {i}, {}: {e}", op.show()))?;
        // The credentials in use are the last ones.
        let n = w.creds.len();
        if n > 2 {
            w.creds.drain(..n - 2);
        }
    }
    Ok(w)
}
