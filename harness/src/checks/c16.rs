//! C16: the in-memory store honours the storage contract atomically. C17: round trips.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::Arc,
};

use cosmian_crypto_core::{
    bytes_ser_de::{Deserializer, Serializable, Serializer},
    Nonce,
};
use cosmian_findex::{
    Data, DbInterface, EncryptedValue, InMemoryDb, IndexedValue, IndexedValueToKeywordsMap, Keyword, KeywordToDataMap,
    Keywords, Token, TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens, ENTRY_LENGTH, LINK_LENGTH,
};

use super::{
    common::{sizes as all_sizes, sizes_to, vary_seed, Filter, Op, Renew, World},
    Check,
};
use crate::{
    codec::hash64,
    explore::{Exec, Phase},
    model::{a, d, kw, p, show},
    sim::{go, Bytes, Sys},
    threads,
};

/// Values are 4 bytes long here: the store is generic.
const L: usize = 4;
type Db = InMemoryDb<L>;
type Map = BTreeMap<u8, u8>;

fn token(i: u8) -> Token {
    // Tokens that only differ by one bit of one byte.
    let mut t = [7u8; 32];
    match i {
        0 => (),
        1 => t[31] ^= 1,
        2 => t[0] ^= 0x80,
        n => t[16] = n,
    }
    Token::from(t)
}

fn token_id(t: &Token) -> u8 {
    (0..8).find(|i| token(*i) == *t).unwrap_or(255)
}

/// Each token may stand for `n` of them, always sent together.
fn tokens(i: u8, n: u32) -> impl Iterator<Item = Token> {
    let t = <[u8; 32]>::from(token(i));
    (0..n).map(move |j| {
        let mut t = t;
        for (x, y) in t[4..8].iter_mut().zip(j.to_be_bytes()) {
            *x ^= y;
        }
        Token::from(t)
    })
}

/// What the `n` rows each token stands for amount to: torn if they do not have the same value, or if some are
/// missing.
const TORN: u8 = 250;

fn collapse<'a>(rows: impl Iterator<Item = (&'a Token, u8)>, n: u32) -> Vec<(u8, u8)> {
    if n == 1 {
        let mut rows = rows.map(|(t, v)| (token_id(t), v)).collect::<Vec<_>>();
        rows.sort_unstable();
        return rows;
    }
    let mut groups: BTreeMap<u8, (BTreeSet<[u8; 4]>, usize, BTreeSet<u8>)> = BTreeMap::new();
    for (t, v) in rows {
        let mut t = <[u8; 32]>::from(*t);
        let mut j = [0; 4];
        for (x, y) in j.iter_mut().zip(&mut t[4..8]) {
            *x = *y ^ 7;
            *y = 7;
        }
        let g = groups.entry(token_id(&Token::from(t))).or_default();
        g.0.insert(j);
        g.1 += 1;
        g.2.insert(v);
    }
    groups
        .into_iter()
        .map(|(t, (js, count, vs))| {
            let whole = js.len() == n as usize && count == n as usize && vs.len() == 1;
            (t, if whole { vs.into_iter().next().expect("one value") } else { TORN })
        })
        .collect()
}

/// Values that differ by the ciphertext, the nonce or the tag only.
fn value(v: u8) -> EncryptedValue<L> {
    let mut x = EncryptedValue {
        ciphertext: [1; L],
        tag: [2; 16],
        nonce: Nonce::from([3; 12]),
    };
    match v {
        0 => (),
        1 => x.ciphertext[L - 1] ^= 1,
        2 => x.nonce.0[0] ^= 1,
        3 => x.tag[15] ^= 1,
        n => x.ciphertext = [n; L],
    }
    x
}

fn value_id(v: &EncryptedValue<L>) -> u8 {
    (0..8).find(|i| value(*i) == *v).unwrap_or(255)
}

fn to_map(m: &Map, n: u32) -> TokenToEncryptedValueMap<L> {
    m.iter()
        .flat_map(|(t, v)| tokens(*t, n).map(|t| (t, value(*v))))
        .collect()
}

fn of_map<'a>(m: impl Iterator<Item = (&'a Token, &'a EncryptedValue<L>)>, n: u32) -> Map {
    collapse(m.map(|(t, v)| (t, value_id(v))), n).into_iter().collect()
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum Req {
    Dump,
    Fetch(BTreeSet<u8>),
    Upsert(Map, Map),
    Insert(Map),
    Delete(BTreeSet<u8>),
    /// Length, emptiness and size: three requests.
    Len,
    /// Length.
    Count,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum Ans {
    Tokens(BTreeSet<u8>),
    Rows(Vec<(u8, u8)>),
    Len(usize, bool, usize),
    Done,
    Refused,
}

/// The documented contract.
fn spec(st: &mut Map, r: &Req) -> Ans {
    match r {
        Req::Dump => Ans::Tokens(st.keys().copied().collect()),
        Req::Fetch(ts) => Ans::Rows(
            st.iter()
                .filter(|(t, _)| ts.contains(*t))
                .map(|(t, v)| (*t, *v))
                .collect(),
        ),
        Req::Upsert(old, new) => {
            if old.keys().any(|t| !st.contains_key(t)) {
                return Ans::Refused;
            }
            let mut rejected = Vec::new();
            for (t, v) in new {
                if old.get(t) == st.get(t) {
                    st.insert(*t, *v);
                } else {
                    rejected.push((*t, st[t]));
                }
            }
            Ans::Rows(rejected)
        }
        Req::Insert(new) => {
            if new.keys().any(|t| st.contains_key(t)) {
                return Ans::Refused;
            }
            st.extend(new.iter());
            Ans::Done
        }
        Req::Delete(ts) => {
            st.retain(|t, _| !ts.contains(t));
            Ans::Done
        }
        Req::Count => Ans::Len(st.len(), false, 0),
        Req::Len => Ans::Len(st.len(), st.is_empty(), st.len() * (32 + 16 + 12 + L)),
    }
}

fn real(db: &Db, r: &Req, n: u32) -> Ans {
    let toks = |ts: &BTreeSet<u8>| ts.iter().flat_map(|t| tokens(*t, n)).collect::<Tokens>();
    let scaled = |len: usize| if len % n as usize == 0 { len / n as usize } else { usize::MAX };
    match r {
        Req::Dump => match go(db.dump_tokens()) {
            Ok(t) => Ans::Tokens(
                collapse(t.iter().map(|t| (t, 0)), n)
                    .into_iter()
                    .map(|(t, v)| if v == TORN { TORN } else { t })
                    .collect(),
            ),
            Err(_) => Ans::Refused,
        },
        Req::Fetch(ts) => match go(db.fetch(toks(ts))) {
            Ok(rows) => {
                let rows: Vec<(Token, EncryptedValue<L>)> = rows.into();
                Ans::Rows(collapse(rows.iter().map(|(t, v)| (t, value_id(v))), n))
            }
            Err(_) => Ans::Refused,
        },
        Req::Upsert(old, new) => match go(db.upsert(to_map(old, n), to_map(new, n))) {
            Ok(rows) => Ans::Rows(of_map(rows.iter(), n).into_iter().collect()),
            Err(_) => Ans::Refused,
        },
        Req::Insert(new) => match go(db.insert(to_map(new, n))) {
            Ok(()) => Ans::Done,
            Err(_) => Ans::Refused,
        },
        Req::Delete(ts) => match go(db.delete(toks(ts))) {
            Ok(()) => Ans::Done,
            Err(_) => Ans::Refused,
        },
        Req::Count => Ans::Len(scaled(db.len()), false, 0),
        Req::Len => Ans::Len(scaled(db.len()), db.is_empty(), scaled(db.size())),
    }
}

fn content(db: &Db, n: u32) -> Map {
    of_map(db.lock().expect("poisoned").iter(), n)
}

/// Partial maps from `n` tokens to `m` values.
fn partial(exec: &mut Exec, n: u8, m: u8) -> Map {
    (0..n)
        .filter_map(|t| {
            let c = exec.choose(m as usize + 1);
            (c > 0).then(|| (t, c as u8 - 1))
        })
        .collect()
}

fn set(exec: &mut Exec, n: u8) -> BTreeSet<u8> {
    let m = exec.subset(n as usize);
    (0..n).filter(|i| m >> i & 1 == 1).collect()
}

fn request(exec: &mut Exec, n: u8, m: u8) -> Req {
    match exec.choose(6) {
        0 => Req::Dump,
        1 => Req::Fetch(set(exec, n)),
        2 => Req::Upsert(partial(exec, n, m), partial(exec, n, m)),
        3 => Req::Insert(partial(exec, n, m)),
        4 => Req::Delete(set(exec, n)),
        _ => Req::Len,
    }
}

fn all_partial(n: u8, m: u8) -> Vec<Map> {
    let mut res = vec![Map::new()];
    for t in 0..n {
        let mut next = res.clone();
        for r in &res {
            for v in 0..m {
                let mut r = r.clone();
                r.insert(t, v);
                next.push(r);
            }
        }
        res = next;
    }
    res
}

fn all_requests(n: u8, m: u8) -> Vec<Req> {
    let maps = all_partial(n, m);
    let sets = all_partial(n, 1);
    let keys = |m: &Map| m.keys().copied().collect::<BTreeSet<_>>();
    let mut res = vec![Req::Dump, Req::Len];
    res.extend(sets.iter().map(|s| Req::Fetch(keys(s))));
    res.extend(sets.iter().map(|s| Req::Delete(keys(s))));
    res.extend(maps.iter().cloned().map(Req::Insert));
    for old in &maps {
        res.extend(maps.iter().map(|new| Req::Upsert(old.clone(), new.clone())));
    }
    res
}

fn step(exec: &mut Exec, db: &Db, st: &mut Map, r: &Req) -> Result<(), String> {
    let before = st.clone();
    let want = spec(st, r);
    let got = real(db, r, 1);
    let now = content(db, 1);
    exec.transitions += 1;
    exec.validated += 1;
    exec.state(hash64(&now));
    exec.outcome(hash64(&(&want, &now)));
    exec.say(|| format!("{before:?}: {r:?} -> {got:?}, then {now:?}"));
    if got != want {
        return Err(format!("in state {before:?}, {r:?} answered {got:?} instead of {want:?}"));
    }
    if now != *st {
        return Err(format!("in state {before:?}, {r:?} left {now:?} instead of {st:?}"));
    }
    Ok(())
}

fn load(st: &Map, n: u32) -> Db {
    let mut db = Db::default();
    db.load(to_map(st, n));
    db
}

/// Is there an order of the operations, compatible with real time, that explains all the answers and
/// the final content?
fn linearizable(init: &Map, ops: &[(Req, Ans, (u64, u64))], last: &Map) -> bool {
    fn rec(st: &Map, done: u32, ops: &[(Req, Ans, (u64, u64))], last: &Map) -> bool {
        if done.count_ones() as usize == ops.len() {
            return st == last;
        }
        for (i, (r, ans, iv)) in ops.iter().enumerate() {
            if done >> i & 1 == 1 {
                continue;
            }
            // Another pending operation ended before this one began.
            if ops
                .iter()
                .enumerate()
                .any(|(j, o)| j != i && done >> j & 1 == 0 && o.2 .1 < iv.0)
            {
                continue;
            }
            let mut s = st.clone();
            if spec(&mut s, r) == *ans && rec(&s, done | 1 << i, ops, last) {
                return true;
            }
        }
        false
    }
    rec(init, 0, ops, last)
}

fn threads_run(exec: &mut Exec, init: &Map, plans: Vec<Vec<Req>>) -> Result<(), String> {
    threads_run_scaled(exec, init, plans, 1)
}

/// Each token of the requests stands for `n` of them.
fn threads_run_scaled(exec: &mut Exec, init: &Map, plans: Vec<Vec<Req>>, n: u32) -> Result<(), String> {
    exec.say(|| format!("initial content {init:?}, {n} rows for each"));
    for (i, p) in plans.iter().enumerate() {
        exec.say(|| format!("thread {i}: {p:?}"));
    }
    let db = Arc::new(load(init, n));
    let bodies = plans
        .into_iter()
        .map(|plan| {
            let db = db.clone();
            Box::new(move || {
                plan.into_iter()
                    .map(|r| {
                        threads::begin();
                        let ans = real(&db, &r, n);
                        (r, ans, threads::end())
                    })
                    .collect::<Vec<_>>()
            }) as Box<dyn FnOnce() -> Vec<(Req, Ans, (u64, u64))> + Send>
        })
        .collect();
    let seed = exec.seed;
    let res = threads::run(exec, seed, bodies)?;
    let ops = res.results.into_iter().flatten().collect::<Vec<_>>();
    let last = content(&db, n);
    exec.validated += 1;
    exec.state(hash64(&(&last, n)));
    exec.outcome(hash64(&(ops.iter().map(|o| &o.1).collect::<Vec<_>>(), &last)));
    for o in &ops {
        exec.say(|| format!("{:?} -> {:?} during {:?}", o.0, o.1, o.2));
    }
    if linearizable(init, &ops, &last) {
        Ok(())
    } else {
        Err(format!(
            "no order of the requests explains their answers from {init:?}: {} and the final content \
             {last:?}",
            ops.iter()
                .map(|o| format!("{:?} -> {:?}", o.0, o.1))
                .collect::<Vec<_>>()
                .join("; ")
        ))
    }
}

/// Requests of the concurrent plans.
fn menu() -> Vec<Req> {
    let m = |x: &[(u8, u8)]| x.iter().copied().collect::<Map>();
    let s = |x: &[u8]| x.iter().copied().collect::<BTreeSet<_>>();
    vec![
        Req::Fetch(s(&[0, 1])),
        Req::Upsert(m(&[]), m(&[(0, 0), (1, 0)])),
        Req::Upsert(m(&[(0, 0)]), m(&[(0, 1), (1, 1)])),
        Req::Upsert(m(&[(0, 0), (1, 0)]), m(&[(0, 1), (1, 1)])),
        Req::Upsert(m(&[(0, 1)]), m(&[(0, 0)])),
        Req::Insert(m(&[(0, 1), (1, 1)])),
        Req::Insert(m(&[(1, 0), (2, 0)])),
        Req::Delete(s(&[0, 1])),
        Req::Delete(s(&[1])),
        Req::Dump,
        Req::Fetch(s(&[0, 1, 2])),
        Req::Count,
    ]
}

pub fn c16(thorough: bool) -> Check {
    let mut phases = Vec::new();
    phases.push(Phase::new(
        "requests",
        "every request over 3 tokens and 2 values (every set of tokens, every pair of partial maps), from \
         each of the 27 contents",
        |exec| {
            let init = partial(exec, 3, 2);
            let r = request(exec, 3, 2);
            let db = load(&init, 1);
            let mut st = init;
            step(exec, &db, &mut st, &r)
        },
    ));
    phases.push(Phase::new(
        "values",
        "every request over 2 tokens and 4 values that differ by the ciphertext, the nonce or the tag \
         only, from each of the 25 contents",
        |exec| {
            let init = partial(exec, 2, 4);
            let r = request(exec, 2, 4);
            let db = load(&init, 1);
            let mut st = init;
            step(exec, &db, &mut st, &r)
        },
    ));
    {
        let reqs = all_requests(2, 2);
        let depth = if thorough { 3 } else { 2 };
        phases.push(Phase::new(
            &format!("sequences-{depth}"),
            format!(
                "every sequence of {depth} requests out of {} over 2 tokens and 2 values, then a fetch and \
                 a dump, from the empty store",
                reqs.len()
            ),
            move |exec| {
                let db = Db::default();
                let mut st = Map::new();
                for _ in 0..depth {
                    let r = exec.pick(&reqs).clone();
                    step(exec, &db, &mut st, &r)?;
                }
                step(exec, &db, &mut st, &Req::Fetch([0, 1, 2].into()))?;
                step(exec, &db, &mut st, &Req::Len)?;
                step(exec, &db, &mut st, &Req::Dump)
            },
        ));
    }
    phases.push(Phase::new(
        "flush-load",
        "every content over 3 tokens and 2 values loaded over every other one, or flushed",
        |exec| {
            let one = partial(exec, 3, 2);
            let two = partial(exec, 3, 2);
            let flush = exec.flag();
            let mut db = load(&one, 1);
            let mut st = two.clone();
            if flush {
                db.flush();
                st.clear();
            } else {
                db.load(to_map(&two, 1));
            }
            for r in [Req::Dump, Req::Len, Req::Fetch([0, 1, 2].into())] {
                step(exec, &db, &mut st, &r)?;
            }
            step(exec, &db, &mut st, &Req::Insert(one))
        },
    ));
    {
        let top = if thorough { 600 } else { 200 };
        let max = if thorough { 1 << 18 } else { 1 << 16 };
        phases.push(Phase::new(
            "sizes",
            format!(
                "stores of 0..{top} rows, or of 2^k and 10^k rows, one less, one more, up to {max}: requests on all of \
                 them, half of them, and one absent, or one present among absent ones"
            ),
            move |exec| {
                let ns = sizes_to(max).into_iter().filter(|n| *n >= top).collect::<Vec<_>>();
                let n = exec.choose(top + ns.len());
                let n = if n < top { n } else { ns[n - top] };
                let tok = |i: usize| {
                    let mut t = [0u8; 32];
                    t[i % 32] = ((i / 32) as u8).wrapping_add(1);
                    t[(i * 7 + 3) % 32] ^= 0x80;
                    if n >= top {
                        t = [0; 32];
                        t[3..7].copy_from_slice(&(i as u32).to_le_bytes());
                    }
                    Token::from(t)
                };
                let rows = (0..n).map(|i| (tok(i), value(i as u8))).collect::<HashMap<_, _>>();
                let n = rows.len();
                let db = Db::default();
                let ok = |b: bool, what: &str| {
                    if b {
                        Ok(())
                    } else {
                        Err(format!("{what} with {n} rows"))
                    }
                };
                go(db.insert(rows.clone().into())).map_err(|e| format!("insert: {e}"))?;
                ok(db.len() == n, "wrong length")?;
                let mut all = rows.keys().copied().collect::<BTreeSet2>();
                let fetched: HashMap<_, _> = Vec::from(
                    go(db.fetch(all.iter().chain([&Token::from([9; 32])]).copied().collect()))
                        .map_err(|e| format!("fetch: {e}"))?,
                )
                .into_iter()
                .collect();
                ok(fetched == rows, "fetch differs")?;
                let old: HashMap<_, _> = rows
                    .iter()
                    .enumerate()
                    .map(|(i, (t, v))| (*t, if i % 2 == 0 { v.clone() } else { value(200) }))
                    .collect();
                let new: HashMap<_, _> = rows.keys().map(|t| (*t, value(201))).collect();
                let rejected = go(db.upsert(old.clone().into(), new.clone().into()))
                    .map_err(|e| format!("upsert: {e}"))?;
                let want: HashMap<_, _> =
                    rows.iter().filter(|(t, v)| old[t] != **v).map(|(t, v)| (*t, v.clone())).collect();
                ok(HashMap::from(rejected) == want, "upsert answers")?;
                // One row that is stored among many that are not: the insertion is refused as a whole.
                if let Some(t) = all.iter().next().copied() {
                    let stored = db.lock().expect("poisoned").0.clone();
                    let mut many = rows
                        .keys()
                        .map(|t| {
                            let mut t = <[u8; 32]>::from(*t);
                            t[31] ^= 0x55;
                            t[30] ^= 0xAA;
                            (Token::from(t), value(7))
                        })
                        .collect::<HashMap<_, _>>();
                    if many.keys().all(|t| !stored.contains_key(t)) {
                        many.insert(t, value(8));
                        ok(go(db.insert(many.into())).is_err(), "an insertion of a stored row is accepted")?;
                        ok(db.lock().expect("poisoned").0 == stored, "a refused insertion changed the store")?;
                    }
                }
                let half = all.iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, t)| *t).collect::<Vec<_>>();
                go(db.delete(half.iter().copied().collect())).map_err(|e| format!("delete: {e}"))?;
                let half = half.into_iter().collect::<std::collections::HashSet<_>>();
                all.retain(|t| !half.contains(t));
                let dump = go(db.dump_tokens()).map_err(|e| format!("dump: {e}"))?;
                ok(dump.iter().copied().collect::<BTreeSet2>().0 == all.0, "dump differs")?;
                for (t, v) in db.lock().expect("poisoned").iter() {
                    let w = want.get(t).cloned().unwrap_or(value(201));
                    ok(*v == w, "wrong row")?;
                }
                exec.transitions += 5;
                exec.validated += 5;
                exec.state(n as u64);
                Ok(())
            },
        ));
    }
    {
        let m = menu();
        phases.push(Phase::new(
            "threads-2x2",
            format!(
                "2 threads sending 1 or 2 requests out of {} each, from 4 contents, all schedules of the lock \
                 operations",
                m.len()
            ),
            move |exec| {
                let init = exec
                    .pick(&[
                        vec![],
                        vec![(0u8, 0u8), (1, 0)],
                        vec![(0, 1)],
                        vec![(0, 0), (1, 1), (2, 0)],
                    ])
                    .iter()
                    .copied()
                    .collect::<Map>();
                let (x, y) = (exec.pick(&m).clone(), exec.pick(&m).clone());
                let mut plans = vec![vec![x], vec![y]];
                if exec.flag() {
                    plans[0].push(exec.pick(&m).clone());
                    if exec.flag() {
                        plans[1].push(exec.pick(&m).clone());
                    }
                }
                threads_run(exec, &init, plans)
            },
        ));
        let m = menu();
        phases.push(Phase::new(
            "threads-3",
            format!(
                "3 threads sending 1 request out of {} each, from 3 contents, all schedules of the lock \
                 operations",
                m.len()
            ),
            move |exec| {
                let init = exec
                    .pick(&[vec![], vec![(0u8, 0u8), (1, 0)], vec![(0, 0), (1, 1), (2, 0)]])
                    .iter()
                    .copied()
                    .collect::<Map>();
                // Same requests in another order: same executions.
                let i = exec.choose(m.len());
                let j = i + exec.choose(m.len() - i);
                let k = j + exec.choose(m.len() - j);
                let plans = vec![vec![m[i].clone()], vec![m[j].clone()], vec![m[k].clone()]];
                threads_run(exec, &init, plans)
            },
        ));
        {
            let m = menu();
            let ns = sizes_to(if thorough { 8192 } else { 2049 }).into_iter().filter(|n| *n > 1).collect::<Vec<_>>();
            phases.push(Phase::new(
                "threads-sizes",
                format!(
                    "2 threads sending 1 request out of {} each, from 4 contents, each token standing for 2^k or 10^k \
                     ones, one less, one more, up to {}: all schedules of the lock operations",
                    m.len(),
                    ns.last().expect("not empty")
                ),
                move |exec| {
                    let n = *exec.pick(&ns);
                    let init = exec
                        .pick(&[vec![], vec![(0u8, 0u8), (1, 0)], vec![(0, 1)], vec![(0, 0), (1, 1), (2, 0)]])
                        .iter()
                        .copied()
                        .collect::<Map>();
                    let i = exec.choose(m.len());
                    let j = i + exec.choose(m.len() - i);
                    threads_run_scaled(exec, &init, vec![vec![m[i].clone()], vec![m[j].clone()]], n as u32)
                },
            ));
        }
        if thorough {
            let m = menu();
            phases.push(Phase::new(
                "threads-3-then-1",
                "3 threads, the first sending 2 requests, from 2 contents, all schedules".to_string(),
                move |exec| {
                    let init = exec
                        .pick(&[vec![], vec![(0u8, 0u8), (1, 0)]])
                        .iter()
                        .copied()
                        .collect::<Map>();
                    let plans = vec![
                        vec![exec.pick(&m).clone(), exec.pick(&m).clone()],
                        vec![exec.pick(&m[..9]).clone()],
                        vec![exec.pick(&m[..9]).clone()],
                    ];
                    threads_run(exec, &init, plans)
                },
            ));
        }
    }
    Check {
        id: "C16",
        level: "model_checking",
        rule: "every request of the domain from every content of the domain; every schedule of the lock \
               operations of the concurrent plans",
        assumptions: vec![
            "the store treats tokens and values outside the domain as it treats those inside",
            "its only synchronisation is its mutex (scheduled through the guarded hook)",
        ],
        phases,
    }
}

/// Ordered set of tokens.
struct BTreeSet2(Vec<Token>);

impl BTreeSet2 {
    fn iter(&self) -> impl Iterator<Item = &Token> {
        self.0.iter()
    }
    fn retain(&mut self, f: impl FnMut(&Token) -> bool) {
        self.0.retain(f);
    }
}

impl FromIterator<Token> for BTreeSet2 {
    fn from_iter<T: IntoIterator<Item = Token>>(iter: T) -> Self {
        let mut v = iter.into_iter().collect::<Vec<_>>();
        v.sort_by_key(|t| <[u8; 32]>::from(*t));
        Self(v)
    }
}

type Rows<const N: usize> = HashMap<Token, EncryptedValue<N>>;

fn rows_of<const N: usize>(db: &InMemoryDb<N>) -> Rows<N> {
    db.lock().expect("poisoned").0.clone()
}

fn write_all<const N: usize>(tables: &[&InMemoryDb<N>]) -> Result<Vec<u8>, String> {
    let mut ser = Serializer::new();
    for t in tables {
        ser.write(*t).map_err(|e| format!("write: {e:?}"))?;
    }
    Ok(ser.finalize().to_vec())
}

fn build<const N: usize>(rows: &[(Token, EncryptedValue<N>)]) -> InMemoryDb<N> {
    let mut db = InMemoryDb::<N>::default();
    db.load(rows.iter().cloned().collect());
    db
}

fn round_trip<const N: usize>(exec: &mut Exec, dbs: &[InMemoryDb<N>], cut: bool) -> Result<(), String> {
    let bytes = write_all(&dbs.iter().collect::<Vec<_>>())?;
    let length = dbs.iter().map(Serializable::length).sum::<usize>();
    if length != bytes.len() {
        return Err(format!("{} bytes are written although the announced length is {length}", bytes.len()));
    }
    let mut de = Deserializer::new(&bytes);
    for (i, db) in dbs.iter().enumerate() {
        let back = de
            .read::<InMemoryDb<N>>()
            .map_err(|e| format!("table {i} of {} rows cannot be read back: {e:?}", db.len()))?;
        exec.validated += 1;
        if rows_of(&back) != rows_of(db) {
            return Err(format!("table {i} of {} rows differs when read back", db.len()));
        }
    }
    if !de.finalize().is_empty() {
        return Err("bytes are left after all tables were read back".to_string());
    }
    for db in dbs {
        let bytes = db.serialize().map_err(|e| format!("serialize: {e:?}"))?;
        let back = InMemoryDb::<N>::deserialize(&bytes)
            .map_err(|e| format!("a table of {} rows cannot be deserialized: {e:?}", db.len()))?;
        exec.validated += 1;
        if rows_of(&back) != rows_of(db) {
            return Err(format!("a table of {} rows differs when deserialized", db.len()));
        }
        if cut {
            for n in 0..bytes.len() {
                exec.validated += 1;
                if InMemoryDb::<N>::deserialize(&bytes[..n]).is_ok() {
                    return Err(format!(
                        "the first {n} of the {} bytes of a table are read as a table",
                        bytes.len()
                    ));
                }
            }
        }
    }
    exec.transitions += dbs.len() as u64 * 2;
    Ok(())
}

/// A row whose bytes are all `b` (they are lengths for a reader that lost its place).
fn filled<const N: usize>(i: u8, b: u8) -> (Token, EncryptedValue<N>) {
    let mut t = [b; 32];
    t[5] = i;
    (
        Token::from(t),
        EncryptedValue {
            ciphertext: [b; N],
            tag: [b; 16],
            nonce: Nonce::from([b; 12]),
        },
    )
}

/// An independent reader of serialized tables: the rows and the number of bytes used, if it is a table.
#[allow(clippy::type_complexity)]
fn parse(bytes: &[u8], n: usize) -> Option<(BTreeMap<Bytes, Bytes>, usize)> {
    // Number and number of bytes used.
    fn leb128(bytes: &[u8]) -> Option<(u64, usize)> {
        let mut x = 0u128;
        for (i, b) in bytes.iter().enumerate().take(10) {
            x |= u128::from(b & 0x7F) << (7 * i);
            if b & 0x80 == 0 {
                return u64::try_from(x).ok().map(|x| (x, i + 1));
            }
        }
        None
    }
    let (count, mut at) = leb128(bytes)?;
    let mut rows = BTreeMap::new();
    for _ in 0..count {
        let token = bytes.get(at..at + 32)?.to_vec();
        at += 32;
        let (len, used) = leb128(&bytes[at..])?;
        at += used;
        if len != n as u64 + 28 {
            return None;
        }
        let value = bytes.get(at..at + n + 28)?.to_vec();
        at += n + 28;
        rows.insert(token, value);
    }
    Some((rows, at))
}

/// Reads any bytes: a table if it is one, an error otherwise, never a panic.
fn read_bytes<const N: usize>(exec: &mut Exec, bytes: &[u8]) -> Result<(), String> {
    let parsed = parse(bytes, N);
    let want = parsed.clone().filter(|(_, used)| *used == bytes.len()).map(|(rows, _)| rows);
    exec.validated += 2;
    exec.transitions += 2;
    let content = |db: &InMemoryDb<N>| {
        rows_of(db)
            .iter()
            .map(|(t, v)| {
                let b = [&v.nonce.0[..], &v.ciphertext[..], &v.tag[..]].concat();
                (t.to_vec(), b)
            })
            .collect::<BTreeMap<Bytes, Bytes>>()
    };
    let shown = || show(&bytes[..bytes.len().min(60)]);
    let panicked = |e: Box<dyn std::any::Any + Send>| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default();
        format!("reading a table from {} bytes {} panics: {m}", bytes.len(), shown())
    };
    let got = std::panic::catch_unwind(|| InMemoryDb::<N>::deserialize(bytes).ok()).map_err(panicked)?;
    if got.as_ref().map(content) != want {
        return Err(format!(
            "{} bytes {} read as a table: {}, instead of {}",
            bytes.len(),
            shown(),
            got.map_or("no table".to_string(), |t| format!("{} rows", t.len())),
            want.map_or("no table".to_string(), |t| format!("{} rows", t.len()))
        ));
    }
    // As the first of a sequence.
    let got = std::panic::catch_unwind(|| {
        let mut de = Deserializer::new(bytes);
        de.read::<InMemoryDb<N>>().ok().map(|t| (t, de.finalize().len()))
    })
    .map_err(panicked)?;
    if got.as_ref().map(|(t, left)| (content(t), bytes.len() - left)) != parsed {
        return Err(format!(
            "{} bytes {} read as a sequence of tables start with a table: {}, instead of {}",
            bytes.len(),
            shown(),
            got.is_some(),
            parsed.is_some()
        ));
    }
    Ok(())
}

fn malformed(exec: &mut Exec) -> Result<(), String> {
    match exec.choose(5) {
        0 => {
            exec.say(|| "every string of up to 2 bytes".to_string());
            exec.state(0);
            read_bytes::<1>(exec, &[])?;
            for x in 0..=255 {
                read_bytes::<1>(exec, &[x])?;
                for y in 0..=255 {
                    read_bytes::<1>(exec, &[x, y])?;
                }
            }
            Ok(())
        }
        1 => {
            let len = exec.choose(200);
            exec.say(|| format!("every uniform string of {len} bytes"));
            exec.state(1000 + len as u64);
            for x in 0..=255 {
                read_bytes::<1>(exec, &vec![x; len])?;
                read_bytes::<ENTRY_LENGTH>(exec, &vec![x; len])?;
            }
            Ok(())
        }
        2 => {
            // One byte of a table is changed, or missing, or in excess.
            let n = exec.choose(4) as u8;
            let rows = (0..n).map(|i| filled::<1>(i, 3 * i)).collect::<Vec<_>>();
            let good = write_all(&[&build(&rows)])?;
            let at = exec.choose(good.len());
            exec.say(|| format!("a table of {n} rows whose byte {at} is changed"));
            exec.state(hash64(&(n, at)));
            for x in 0..=255 {
                let mut bytes = good.clone();
                bytes[at] = x;
                read_bytes::<1>(exec, &bytes)?;
                bytes.push(x);
                read_bytes::<1>(exec, &bytes)?;
                let mut bytes = good.clone();
                bytes.insert(at, x);
                read_bytes::<1>(exec, &bytes)?;
            }
            let mut bytes = good;
            bytes.remove(at);
            read_bytes::<1>(exec, &bytes)
        }
        3 => {
            // Another number of rows than what follows.
            let n = exec.choose(4);
            let rows = (0..n as u8).map(|i| filled::<1>(i, 3 * i)).collect::<Vec<_>>();
            let good = write_all(&[&build(&rows)])?;
            let counts = (0..64)
                // Between these, a reader that trusts the number would exhaust the memory.
                .filter(|k| *k <= 20 || *k >= 58)
                .flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1])
                .chain([u64::MAX, u64::MAX - 1])
                .collect::<Vec<_>>();
            let count = *exec.pick(&counts);
            exec.say(|| format!("a table of {n} rows said to have {count}"));
            exec.state(hash64(&(n, count)));
            let mut bytes = Vec::new();
            let mut c = count;
            while c >= 128 {
                bytes.push(c as u8 | 0x80);
                c >>= 7;
            }
            bytes.push(c as u8);
            bytes.extend(&good[1..]);
            read_bytes::<1>(exec, &bytes)
        }
        _ => {
            // A table of values of another size.
            let n = exec.choose(4) as u8;
            exec.say(|| format!("tables of {n} rows read as tables of values of another size"));
            exec.state(5000 + u64::from(n));
            fn all<const M: usize>(exec: &mut Exec, n: u8) -> Result<(), String> {
                for b in 0..=255 {
                    let rows = (0..n).map(|i| filled::<M>(i, b)).collect::<Vec<_>>();
                    let bytes = write_all(&[&build(&rows)])?;
                    read_bytes::<1>(exec, &bytes)?;
                    read_bytes::<ENTRY_LENGTH>(exec, &bytes)?;
                    read_bytes::<LINK_LENGTH>(exec, &bytes)?;
                    read_bytes::<100>(exec, &bytes)?;
                }
                Ok(())
            }
            all::<1>(exec, n)?;
            all::<ENTRY_LENGTH>(exec, n)?;
            all::<LINK_LENGTH>(exec, n)?;
            all::<100>(exec, n)
        }
    }
}

fn conversions<const N: usize>(exec: &mut Exec) -> Result<(), String> {
    let len = exec.choose(300);
    let fill = *exec.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
    let mut bytes = (0..len)
        .map(|i| if fill == 1 { i as u8 } else { fill })
        .collect::<Vec<_>>();
    exec.say(|| format!("{len} bytes, fill {fill}, values of {N} bytes"));
    exec.validated += 2;
    exec.transitions += 2;
    exec.state(hash64(&(len, fill, N)));
    match (Token::try_from(bytes.as_slice()), len == 32) {
        (Ok(t), true) => {
            if <[u8; 32]>::from(t)[..] != bytes[..] || t[..] != bytes[..] {
                return Err("a token differs from its bytes".to_string());
            }
        }
        (Err(_), false) => (),
        (r, _) => return Err(format!("token of {len} bytes: {}", r.is_ok())),
    }
    match (
        EncryptedValue::<N>::try_from(bytes.as_slice()),
        len == N + 28,
    ) {
        (Ok(v), true) => {
            if Vec::<u8>::from(&v) != bytes {
                return Err("an encrypted value differs from its bytes".to_string());
            }
            let mut w = v.clone();
            w.ciphertext[N - 1] ^= 1;
            w.tag[15] ^= 2;
            w.nonce.0[11] ^= 4;
            let b = Vec::<u8>::from(&w);
            let back = EncryptedValue::<N>::try_from(b.as_slice())
                .map_err(|e| format!("encrypted value: {e}"))?;
            if back != w || b == bytes {
                return Err("an encrypted value differs after a round trip".to_string());
            }
        }
        (Err(_), false) => (),
        (r, _) => return Err(format!("encrypted value of {len} bytes: {}", r.is_ok())),
    }
    // Indexed values.
    type V = IndexedValue<Keyword, Data>;
    for v in [
        V::Data(Data::from(bytes.clone())),
        V::Pointer(Keyword::from(bytes.clone())),
    ] {
        let b = Vec::<u8>::from(&v);
        exec.validated += 1;
        match V::try_from(b.as_slice()) {
            Ok(w) if w == v => (),
            _ => return Err(format!("an indexed value of {len} bytes differs after a round trip")),
        }
    }
    if !bytes.is_empty() {
        for first in 0..=255u8 {
            bytes[0] = first;
            let ok = V::try_from(bytes.as_slice()).is_ok();
            exec.validated += 1;
            if ok != (first == b'w' || first == b'l') {
                return Err(format!("bytes starting with {first} are read as an indexed value: {ok}"));
            }
        }
    } else if V::try_from(bytes.as_slice()).is_ok() {
        return Err("no byte is read as an indexed value".to_string());
    }
    Ok(())
}

/// The collections exchanged with the library hold what they are made from, whichever way they are made and read.
fn containers(exec: &mut Exec, ns: &[usize]) -> Result<(), String> {
    type V = IndexedValue<Keyword, Data>;
    let n = *exec.pick(ns);
    exec.say(|| format!("{n} elements"));
    exec.transitions += 1;
    exec.state(n as u64);
    let keyword = |i: usize| Keyword::from(format!("keyword {i}").as_str());
    let mut checked = 0;
    let mut check = |what: &str, ok: bool| {
        checked += 1;
        ok.then_some(()).ok_or_else(|| format!("{what} of {n} elements are not those they are made from"))
    };
    // Tokens.
    let tokens = (0..n)
        .map(|i| {
            let mut t = [3; 32];
            t[..8].copy_from_slice(&(i as u64).to_le_bytes());
            Token::from(t)
        })
        .collect::<Vec<_>>();
    let set = tokens.iter().copied().collect::<HashSet<_>>();
    for x in [tokens.iter().copied().collect::<Tokens>(), Tokens::from(set.clone())] {
        check("tokens", *x == set && x.len() == n)?;
        check("tokens", x.clone().into_iter().collect::<HashSet<_>>() == set)?;
        check("tokens", HashSet::from(x) == set)?;
    }
    // Rows.
    let rows = tokens.iter().enumerate().map(|(i, t)| (*t, value((i % 4) as u8))).collect::<Vec<_>>();
    let map = rows.iter().cloned().collect::<HashMap<_, _>>();
    for mut x in [
        rows.iter().cloned().collect::<TokenToEncryptedValueMap<L>>(),
        TokenToEncryptedValueMap::from(map.clone()),
    ] {
        check("rows", *x == map && x.len() == n)?;
        check("rows", x.clone().into_iter().collect::<HashMap<_, _>>() == map)?;
        check("rows", HashMap::from(x.clone()) == map)?;
        if let Some(t) = tokens.first() {
            x.remove(t);
            check("the other rows", x.len() == n - 1 && tokens[1..].iter().all(|t| x.get(t) == map.get(t)))?;
        }
    }
    // The same row may be listed twice, and the order is kept.
    let twice = rows.iter().chain(rows.iter().take(3)).cloned().collect::<Vec<_>>();
    for x in [
        twice.iter().cloned().collect::<TokenWithEncryptedValueList<L>>(),
        TokenWithEncryptedValueList::from(twice.clone()),
    ] {
        check("listed rows", x[..] == twice[..])?;
        let all = if n % 2 == 0 { x.into_iter().collect() } else { Vec::from(x) };
        check("listed rows", all == twice)?;
    }
    // Keywords.
    let set = (0..n).map(keyword).collect::<HashSet<_>>();
    let statics: Vec<&'static str> = (0..n).map(|i| &*format!("keyword {i}").leak()).collect();
    for mut x in [
        (0..n).map(keyword).collect::<Keywords>(),
        Keywords::from(set.clone()),
        statics.into_iter().collect::<Keywords>(),
    ] {
        check("keywords", *x == set && x.len() == n)?;
        check("keywords", x.clone().into_iter().collect::<HashSet<_>>() == set)?;
        check("keywords", HashSet::from(x.clone()) == set)?;
        check("keywords with another one", x.insert(Keyword::from("another")) && x.len() == n + 1)?;
    }
    // Results.
    let pairs = (0..n)
        .map(|i| (keyword(i), (0..i % 3).map(|j| Data::from(format!("data {i} {j}").as_str())).collect::<HashSet<_>>()))
        .collect::<Vec<_>>();
    let map = pairs.iter().cloned().collect::<HashMap<_, _>>();
    for mut x in [pairs.iter().cloned().collect::<KeywordToDataMap>(), KeywordToDataMap::from(map.clone())] {
        check("results", *x == map && x.len() == n)?;
        check("results", x.clone().into_iter().collect::<HashMap<_, _>>() == map)?;
        check("results", HashMap::from(x.clone()) == map)?;
        x.entry(Keyword::from("another")).or_default().insert(Data::from("more"));
        check("results with another one", x.len() == n + 1)?;
    }
    // Additions.
    let list = (0..n)
        .map(|i| {
            let v = if i % 2 == 0 {
                V::Data(Data::from(format!("value {i}").as_str()))
            } else {
                V::Pointer(keyword(i))
            };
            (v, (0..i % 4).map(keyword).collect::<HashSet<_>>())
        })
        .collect::<Vec<_>>();
    let sets = list.iter().cloned().collect::<HashMap<_, _>>();
    let same = |x: IndexedValueToKeywordsMap| {
        x.len() == n
            && x.iter().all(|(v, k)| sets.get(v) == Some(&**k))
            && x.into_iter().all(|(v, k)| sets.get(&v) == Some(&HashSet::from(k)))
    };
    let wrapped = || list.iter().cloned().map(|(v, k)| (v, Keywords::from(k)));
    check("associations", same(list.iter().cloned().collect()))?;
    check("associations", same(wrapped().collect()))?;
    check("associations", same(IndexedValueToKeywordsMap::from(sets.clone())))?;
    check("associations", same(IndexedValueToKeywordsMap::from(wrapped().collect::<HashMap<_, _>>())))?;
    if n >= 100 {
        if let Ok(all) = <[(V, Keywords); 100]>::try_from(wrapped().take(100).collect::<Vec<_>>()) {
            let x = IndexedValueToKeywordsMap::from(all);
            check(
                "associations",
                x.len() == 100 && list[..100].iter().all(|(v, k)| x.get(v).map(|x| &**x) == Some(k)),
            )?;
        }
    }
    for (v, _) in &list {
        let (data, pointer) = match v {
            V::Data(d) => (Some(d), None),
            V::Pointer(p) => (None, Some(p)),
        };
        check("values", v.get_data() == data && v.get_pointer() == pointer && v.is_pointer() == pointer.is_some())?;
    }
    exec.validated += checked;
    Ok(())
}

fn index_alphabet() -> Vec<Op> {
    vec![
        Op::Add(vec![a("a", d("1"))]),
        Op::Add(vec![a("a", p("b")), a("b", d("2")), a("c", d("a value of several blocks, i.e. links"))]),
        Op::Del(vec![a("a", d("1")), a("b", d("2"))]),
        Op::Add((0..9).map(|i| a("b", d(&format!("many {i}")))).collect()),
        Op::Compact(Renew::Label, 1.0, Filter::KeepAll),
        Op::Compact(Renew::Both, 0.4, Filter::KeepAll),
        Op::Compact(Renew::Back, 1.0, Filter::KeepAll),
    ]
}

pub fn c17(thorough: bool) -> Check {
    let mut phases = Vec::new();
    phases.push(Phase::new(
        "small-tables",
        "every table over 3 tokens and 4 values (they differ by ciphertext, nonce or tag), and all their \
         strict prefixes",
        |exec| {
            let m = partial(exec, 3, 4);
            exec.say(|| format!("{m:?}"));
            exec.state(hash64(&m));
            round_trip(exec, &[load(&m, 1)], true)
        },
    ));
    phases.push(Phase::new(
        "sequences-of-tables",
        "every sequence of three tables over 2 tokens and 2 values, written one after the other",
        |exec| {
            let ms = [partial(exec, 2, 2), partial(exec, 2, 2), partial(exec, 2, 2)];
            exec.say(|| format!("{ms:?}"));
            exec.state(hash64(&ms));
            round_trip(exec, &ms.iter().map(|m| load(m, 1)).collect::<Vec<_>>(), false)
        },
    ));
    phases.push(Phase::new(
        "uniform-bytes",
        "tables of 1 or 2 rows whose bytes are all equal, for all 256 bytes, for values of 1, 80, 86, 99, \
         100, 101, 200 and 16400 bytes",
        |exec| {
            let b = exec.choose(256) as u8;
            let n = 1 + exec.choose(2) as u8;
            fn go<const N: usize>(exec: &mut Exec, b: u8, n: u8) -> Result<(), String> {
                exec.say(|| format!("{n} rows of bytes {b}, values of {N} bytes"));
                exec.state(hash64(&(b, n, N)));
                let rows = (0..n).map(|i| filled::<N>(i, b)).collect::<Vec<_>>();
                round_trip(exec, &[build(&rows), build(&[]), build(&rows[1..])], false)
            }
            match exec.choose(8) {
                0 => go::<1>(exec, b, n),
                1 => go::<ENTRY_LENGTH>(exec, b, n),
                2 => go::<LINK_LENGTH>(exec, b, n),
                3 => go::<99>(exec, b, n),
                4 => go::<100>(exec, b, n),
                5 => go::<101>(exec, b, n),
                6 => go::<200>(exec, b, n),
                _ => go::<16400>(exec, b, n),
            }
        },
    ));
    {
        let top = if thorough { 1200 } else { 400 };
        let max = if thorough { 1 << 20 } else { 1 << 17 };
        phases.push(Phase::new(
            "sizes",
            format!("tables of 0..{top} rows, and of every 2^k and 10^k rows, one less, one more, up to {max}"),
            move |exec| {
                let ns = all_sizes(top, max);
                let n = exec.choose(top + ns.len());
                let n = if n < top { n } else { ns[n - top] };
                exec.say(|| format!("{n} rows"));
                exec.state(n as u64);
                let rows = (0..n)
                    .map(|i| {
                        let mut r = filled::<LINK_LENGTH>(i as u8, (i >> 8) as u8);
                        r.1.ciphertext[3] = i as u8;
                        let mut t = [i as u8; 32];
                        t[9] = (i >> 8) as u8;
                        t[10] = (i >> 16) as u8;
                        r.0 = Token::from(t);
                        r
                    })
                    .collect::<Vec<_>>();
                round_trip(exec, &[build(&rows)], false)
            },
        ));
    }
    {
        let ops = index_alphabet();
        let depth = if thorough { 6 } else { 4 };
        let seeds = if thorough { 4 } else { 2 };
        phases.push(Phase::new(
            "indexes",
            format!(
                "both tables of the index after every history of 0..={depth} calls over {} calls, {seeds} \
                 seeds, written one after the other and read back; the copy answers searches, is updated \
                 and compacted",
                ops.len()
            ),
            move |exec| {
                vary_seed(exec, seeds);
                let mut w = World::new(&["a", "b", "c"]);
                let fx = w.sys.client();
                let n = exec.choose(depth + 1);
                for _ in 0..n {
                    let op = exec.pick(&ops).clone();
                    exec.say(|| op.show());
                    w.apply(exec, &fx, &op)?;
                }
                let mut ser = Serializer::new();
                ser.write(&*w.sys.et).map_err(|e| format!("write: {e:?}"))?;
                ser.write(&*w.sys.ct).map_err(|e| format!("write: {e:?}"))?;
                let bytes = ser.finalize();
                let mut de = Deserializer::new(&bytes);
                let et = de
                    .read::<InMemoryDb<ENTRY_LENGTH>>()
                    .map_err(|e| format!("the entry table cannot be read back: {e:?}"))?;
                let ct = de
                    .read::<InMemoryDb<LINK_LENGTH>>()
                    .map_err(|e| format!("the chain table cannot be read back: {e:?}"))?;
                if !de.finalize().is_empty() {
                    return Err("bytes are left after both tables".to_string());
                }
                let snap = w.sys.snap();
                if rows_of(&et) != snap.et || rows_of(&ct) != snap.ct {
                    return Err("the tables differ when read back".to_string());
                }
                exec.validated += 2;
                w.sys = Sys::share(Arc::new(et), Arc::new(ct));
                let fx = w.sys.client();
                let all = [kw("a"), kw("b"), kw("c"), kw("nothing")];
                w.check_search(exec, &fx, &all)?;
                exec.state(w.digest());
                w.apply(exec, &fx, &Op::Add(vec![a("c", d("1")), a("a", d("2"))]))?;
                w.apply(exec, &fx, &Op::Compact(Renew::Key, 1.0, Filter::KeepAll))?;
                w.check_search(exec, &fx, &all)
            },
        ));
    }
    phases.push(Phase::new(
        "malformed",
        "bytes that are not a table, compared with an independent reader: every string of up to 2 bytes, every \
         uniform string of up to 200 bytes, tables of up to 3 rows with any byte replaced, inserted or removed, \
         or another number of rows, or values of another size",
        malformed,
    ));
    phases.push(Phase::new(
        "conversions",
        "byte strings of every length 0..300 and 5 contents, as tokens, encrypted values of 80, 86 and 1 \
         bytes, and indexed values (all 256 first bytes)",
        |exec| match exec.choose(3) {
            0 => conversions::<ENTRY_LENGTH>(exec),
            1 => conversions::<LINK_LENGTH>(exec),
            _ => conversions::<1>(exec),
        },
    ));
    {
        let mut ns = (0..40).collect::<Vec<_>>();
        ns.extend(sizes_to(if thorough { 65_536 } else { 4096 }));
        phases.push(Phase::new(
            "containers",
            format!(
                "each collection of the interface made from 0..40 and {} elements around the powers of two and ten up to \
                 {}, in each way, and read in each way",
                ns.len() - 40,
                ns.last().copied().unwrap_or(0)
            ),
            move |exec| containers(exec, &ns),
        ));
    }
    phases.push(Phase::new(
        "byte-vectors",
        "keywords, data and labels of every length 0..300 and all 256 uniform contents converted to bytes \
         and back",
        |exec| {
            let len = exec.choose(300);
            for fill in 0..=255u8 {
                let bytes = vec![fill; len];
                let (k, x) = (Keyword::from(bytes.clone()), Data::from(bytes.as_slice()));
                let l = cosmian_findex::Label::from(bytes.clone());
                exec.validated += 3;
                if k[..] != bytes[..]
                    || x[..] != bytes[..]
                    || l[..] != bytes[..]
                    || Vec::<u8>::from(k) != bytes
                    || Vec::<u8>::from(x) != bytes
                    || Vec::<u8>::from(l) != bytes
                {
                    return Err(format!("{} differs after a round trip", show(&bytes)));
                }
            }
            exec.state(len as u64);
            exec.transitions += 1;
            Ok(())
        },
    ));
    Check {
        id: "C17",
        level: "model_checking",
        rule: "every table, sequence of tables, history and byte string of the domains is written and read \
               back",
        assumptions: vec!["rows outside the domain are written as those inside"],
        phases,
    }
}
