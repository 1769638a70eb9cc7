//! C19: corrupted rows are detected, never decoded.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

use cosmian_findex::{EncryptedValue, Token};

use super::{
    common::{
        blob, compare, dimension_keywords, sized, sized_text, sizes_to, volume_world, Filter, Renew, World,
    },
    Check,
};
use crate::{
    codec,
    explore::{Exec, Phase},
    model::{a, d, kw, p, show, show_assocs, show_set, Assoc, Cred, Iv, Live, Model},
    ops,
    sim::{go, Bytes, Snap, CT, ET},
};

/// Indexes to damage.
fn index(which: usize) -> Result<World, String> {
    let mut w = World::new(&["a", "b", "c"]);
    let fx = w.sys.client();
    match which {
        0 => {
            w.add(&fx, &[a("a", d("1"))])?;
        }
        1 => {
            // Two links, a pointer, a second keyword, a deletion.
            w.add(&fx, &[a("a", Iv::D(blob(100, 1))), a("a", p("b")), a("b", d("2")), a("c", d("3"))])?;
            w.del(&fx, &[a("c", d("4"))])?;
            w.add(&fx, &[a("b", d("5"))])?;
        }
        _ => {
            w.add(&fx, &[a("a", d("1")), a("b", p("a")), a("c", p("b")), a("c", d("3"))])?;
            w.compact(&fx, Renew::Both, 1.0, &Filter::KeepAll)?;
            w.add(&fx, &[a("a", d("6"))])?;
        }
    }
    Ok(w)
}

const INDEXES: usize = 3;

/// Rows of both tables, with the keyword they belong to.
fn rows(w: &World) -> Result<Vec<(u8, Token, Bytes)>, String> {
    let cred = w.cur();
    let v = codec::view(&w.sys.snap(), &cred, &w.universe)?;
    let mut res = Vec::new();
    for e in &v.decoded.entries {
        let k = w
            .universe
            .iter()
            .find(|k| codec::hash_kw(k) == e.kw_hash)
            .ok_or("an entry belongs to no keyword")?;
        res.push((ET, Token::from(e.token), k.clone()));
        for t in &e.chain {
            res.push((CT, Token::from(*t), k.clone()));
        }
    }
    res.sort_by_key(|(t, tok, k)| (*t, k.clone(), <[u8; 32]>::from(*tok)));
    Ok(res)
}

/// Flips a bit of nonce || ciphertext || tag.
fn flip<const N: usize>(v: &mut EncryptedValue<N>, bit: usize) {
    let (byte, mask) = (bit / 8, 1u8 << (bit % 8));
    if byte < 12 {
        v.nonce.0[byte] ^= mask;
    } else if byte < 12 + N {
        v.ciphertext[byte - 12] ^= mask;
    } else {
        v.tag[byte - 12 - N] ^= mask;
    }
}

fn bits(table: u8) -> usize {
    8 * if table == ET { 108 } else { 114 }
}

#[derive(Debug, Clone)]
enum Try {
    Search(Vec<Bytes>),
    Write(bool, Vec<Assoc>),
    Compact(Renew, f64),
}

fn tries() -> Vec<Try> {
    vec![
        Try::Search(vec![kw("a")]),
        Try::Search(vec![kw("b")]),
        Try::Search(vec![kw("c"), kw("a")]),
        Try::Write(true, vec![a("a", d("new"))]),
        Try::Write(false, vec![a("b", d("2"))]),
        Try::Write(true, vec![a("a", d("new")), a("b", d("new")), a("c", d("new")), a("d", d("new"))]),
        Try::Write(false, vec![a("c", d("3")), a("d", d("absent"))]),
        Try::Compact(Renew::Label, 1.0),
        Try::Compact(Renew::Both, 0.0),
        Try::Compact(Renew::Key, 0.4),
    ]
}

impl Try {
    fn show(&self) -> String {
        match self {
            Self::Search(k) => format!("search of {}", show_set(&k.iter().cloned().collect())),
            Self::Write(true, x) => format!("add [{}]", show_assocs(x)),
            Self::Write(false, x) => format!("delete [{}]", show_assocs(x)),
            Self::Compact(r, rate) => format!("compact renewing {r:?} at rate {rate}"),
        }
    }
}

/// A damaged row.
#[derive(Debug, Clone)]
struct Damage {
    table: u8,
    token: Token,
    keyword: Bytes,
}

fn needed_by_search(model: &Model, kws: &[Bytes], dmg: &[Damage]) -> bool {
    kws.iter().any(|k| {
        let r = model.reachable(k);
        dmg.iter().any(|x| r.contains(&x.keyword))
    })
}

/// Values of a round or of a filter that are not in the index.
fn derived(model: &Model, rounds: &[Live]) -> Option<String> {
    for r in rounds {
        for (k, s) in r {
            let known = model.of(k);
            if let Some(v) = s.iter().find(|v| !known.contains(*v)) {
                return Some(format!("{} for {}", crate::model::show_iv(v), show(k)));
            }
        }
    }
    None
}

/// Runs an operation on a damaged index.
fn attempt(exec: &mut Exec, w: &mut World, t: &Try, dmg: &[Damage]) -> Result<(), String> {
    let fx = w.sys.client();
    let cred = w.cur();
    let before = w.sys.snap();
    exec.say(|| t.show());
    exec.evals += 1;
    exec.transitions += 1;
    exec.validated += 1;
    let refused = |what: &str, after: &Snap| -> Result<(), String> {
        if *after == before {
            Ok(())
        } else {
            Err(format!("{what} detected the damage but modified the tables"))
        }
    };
    match t {
        Try::Search(kws) => {
            let needed = needed_by_search(&w.model, kws, dmg);
            let rounds = Rc::new(RefCell::new(Vec::new()));
            let res = go(ops::search_rounds(&fx, &cred, kws, &rounds, |_| ops::Cb::Continue));
            if let Some(x) = derived(&w.model, &rounds.borrow()) {
                return Err(format!("{} reports {x}, which was never indexed", t.show()));
            }
            exec.nontrivial += u64::from(needed);
            match res {
                Err(e) if !needed => Err(format!("{} needs no damaged row and fails: {e}", t.show())),
                Err(_) => refused("a search", &w.sys.snap()),
                Ok(_) if needed => Err(format!("{} succeeds although it reads a damaged row", t.show())),
                Ok(found) => {
                    compare(&w.model, kws, &found)?;
                    refused("a search", &w.sys.snap())
                }
            }
        }
        Try::Write(add, x) => {
            let needed = dmg
                .iter()
                .any(|g| g.table == ET && x.iter().any(|(k, _)| *k == g.keyword));
            exec.nontrivial += u64::from(needed);
            match go(ops::write(&fx, &cred, *add, x)) {
                Err(e) if !needed => Err(format!("{} needs no damaged row and fails: {e}", t.show())),
                Err(_) => refused("a write", &w.sys.snap()),
                Ok(_) if needed => Err(format!("{} succeeds although it reads a damaged row", t.show())),
                Ok(_) => {
                    if *add {
                        w.model.add(x);
                    } else {
                        w.model.del(x);
                    }
                    check_rest(exec, w, &cred, dmg)
                }
            }
        }
        Try::Compact(renew, rate) => {
            let new = w.next_cred(*renew);
            let must = dmg.iter().any(|g| g.table == ET || *rate >= 1.0);
            let must_not = !must && *rate == 0.0;
            exec.nontrivial += u64::from(!must_not);
            let known = w.model.all_data();
            let given = Rc::new(RefCell::new(BTreeSet::new()));
            let g2 = given.clone();
            let res = go(ops::compact_with(&fx, &cred, &new, *rate, move |x| {
                g2.borrow_mut().extend(x.iter().cloned());
                Ok(x)
            }));
            if let Some(x) = given.borrow().iter().find(|x| !known.contains(*x)) {
                return Err(format!("the filter received {}, which was never indexed", show(x)));
            }
            match res {
                Err(e) if must_not => Err(format!("{} needs no damaged row and fails: {e}", t.show())),
                Err(_) => refused("a compaction", &w.sys.snap()),
                Ok(()) if must => Err(format!("{} succeeds although it reads a damaged row", t.show())),
                Ok(()) => {
                    // A compacted chain is a sound one.
                    w.creds.push(new.clone());
                    check_rest(exec, w, &new, dmg)
                }
            }
        }
    }
}

/// Keywords that reach no damaged row are found, the others fail.
fn check_rest(exec: &mut Exec, w: &World, cred: &Cred, dmg: &[Damage]) -> Result<(), String> {
    let fx = w.sys.client();
    for k in w.universe.iter().cloned().chain([kw("d")]) {
        let needed = needed_by_search(&w.model, &[k.clone()], dmg);
        exec.validated += 1;
        match go(ops::search(&fx, cred, &[k.clone()])) {
            Err(e) if !needed => return Err(format!("search of {} fails afterwards: {e}", show(&k))),
            Ok(_) if needed => {
                return Err(format!("search of {} succeeds although it reads a damaged row", show(&k)))
            }
            Ok(found) => compare(&w.model, &[k], &found)?,
            Err(_) => (),
        }
    }
    Ok(())
}

/// After the attempt, the damage is still there; once it is repaired everything is found.
fn repaired(exec: &mut Exec, w: &World, good: &Snap, dmg: &[Damage]) -> Result<(), String> {
    let fx = w.sys.client();
    for g in dmg {
        if g.table == ET {
            let mut t = w.sys.et.lock().expect("poisoned");
            if let Some(v) = t.get_mut(&g.token) {
                *v = good.et[&g.token].clone();
            }
        } else {
            let mut t = w.sys.ct.lock().expect("poisoned");
            if let Some(v) = t.get_mut(&g.token) {
                *v = good.ct[&g.token].clone();
            }
        }
    }
    let kws: Vec<Bytes> = w.universe.iter().cloned().chain([kw("d")]).collect();
    exec.validated += 1;
    let found = go(ops::search(&fx, &w.cur(), &kws)).map_err(|e| format!("repaired, but: {e}"))?;
    compare(&w.model, &kws, &found)
}

fn damage_bit(w: &World, row: &(u8, Token, Bytes), bit: usize) -> Damage {
    if row.0 == ET {
        flip(w.sys.et.lock().expect("poisoned").get_mut(&row.1).expect("row"), bit);
    } else {
        flip(w.sys.ct.lock().expect("poisoned").get_mut(&row.1).expect("row"), bit);
    }
    Damage {
        table: row.0,
        token: row.1,
        keyword: row.2.clone(),
    }
}

fn show_row(r: &(u8, Token, Bytes)) -> String {
    format!("{} row of {}", if r.0 == ET { "ET" } else { "CT" }, show(&r.2))
}

pub fn check(thorough: bool) -> Check {
    let mut phases = Vec::new();
    for table in [ET, CT] {
        phases.push(Phase::new(
            if table == ET { "entry-bits" } else { "chain-bits" },
            format!(
                "{INDEXES} indexes, each bit of each {} row altered, before each of {} operations",
                if table == ET { "entry" } else { "chain" },
                tries().len()
            ),
            move |exec| {
                let which = exec.choose(INDEXES);
                let mut w = index(which)?;
                let rows = rows(&w)?.into_iter().filter(|r| r.0 == table).collect::<Vec<_>>();
                let row = exec.pick(&rows).clone();
                let bit = exec.choose(bits(table));
                let t = exec.pick(&tries()).clone();
                exec.say(|| format!("index {which}: bit {bit} of a {} altered", show_row(&row)));
                let good = w.sys.snap();
                let dmg = [damage_bit(&w, &row, bit)];
                exec.state(codec::hash64(&(which, <[u8; 32]>::from(row.1), bit)));
                attempt(exec, &mut w, &t, &dmg)?;
                repaired(exec, &w, &good, &dmg)
            },
        ));
    }
    phases.push(Phase::new(
        "bytes",
        format!(
            "1 index, each byte of one row per table replaced by {} values, before each operation",
            if thorough { "all 255 other" } else { "its complement and 6 other" }
        ),
        move |exec| {
            let mut w = index(1)?;
            let table = exec.choose(2) as u8;
            let row = rows(&w)?.into_iter().find(|r| r.0 == table).ok_or("no row")?;
            let byte = exec.choose(bits(table) / 8);
            let mask = if thorough {
                exec.choose(255) + 1
            } else {
                *exec.pick(&[255usize, 3, 0x81, 0x0f, 0xf0, 0x55, 0xaa])
            };
            let t = exec.pick(&tries()).clone();
            exec.say(|| format!("byte {byte} of a {} xored with {mask}", show_row(&row)));
            let good = w.sys.snap();
            let mut dmg = None;
            for b in (0..8).filter(|b| mask >> b & 1 == 1) {
                dmg = Some(damage_bit(&w, &row, byte * 8 + b));
            }
            let dmg = [dmg.ok_or("no bit")?];
            exec.state(codec::hash64(&(<[u8; 32]>::from(row.1), byte, mask)));
            attempt(exec, &mut w, &t, &dmg)?;
            repaired(exec, &w, &good, &dmg)
        },
    ));
    phases.push(Phase::new(
        "chain-swaps",
        format!(
            "{INDEXES} indexes (and an index under another key, and one of another label, in the same tables), the \
             value of each chain row replaced by that of each row of each other chain, before each operation"
        ),
        move |exec| {
            let which = exec.choose(INDEXES);
            let mut w = index(which)?;
            let fx = w.sys.client();
            let mine = rows(&w)?.into_iter().filter(|r| r.0 == CT).collect::<Vec<_>>();
            // Values of chains that do not exist any more, and of other indexes.
            let mut others: Vec<(String, EncryptedValue<86>)> = Vec::new();
            let good = w.sys.snap();
            for r in &mine {
                others.push((show(&r.2), good.ct[&r.1].clone()));
            }
            for c in [Cred::new(9, "label-0"), Cred::new(0, "other")] {
                go(ops::add(&fx, &c, &[a("a", d("1"))])).map_err(|e| format!("add: {e}"))?;
                for (t, v) in w.sys.snap().ct {
                    if !good.ct.contains_key(&t) {
                        others.push((format!("index {}", c.show()), v));
                    }
                }
                w.sys.restore(&good);
            }
            let mut later = w.sys.fork();
            std::mem::swap(&mut later, &mut w.sys);
            let n = w.creds.len();
            w.compact(&w.sys.client(), Renew::Label, 1.0, &Filter::KeepAll)?;
            w.creds.truncate(n);
            let mut stale: Vec<_> = w.sys.snap().ct.into_iter().collect();
            stale.sort_by_key(|(t, _)| <[u8; 32]>::from(*t));
            others.extend(stale.into_iter().map(|(_, v)| ("the compacted index".to_string(), v)));
            w.sys = later;
            let i = exec.choose(mine.len());
            let j = exec.choose(others.len());
            let t = exec.pick(&tries()).clone();
            if j < mine.len() && mine[j].2 == mine[i].2 {
                return Ok(());
            }
            exec.say(|| format!("index {which}: a {} replaced by one of {}", show_row(&mine[i]), others[j].0));
            *w.sys.ct.lock().expect("poisoned").get_mut(&mine[i].1).expect("row") = others[j].1.clone();
            let dmg = [Damage {
                table: CT,
                token: mine[i].1,
                keyword: mine[i].2.clone(),
            }];
            exec.state(codec::hash64(&(which, i, j)));
            attempt(exec, &mut w, &t, &dmg)?;
            repaired(exec, &w, &good, &dmg)
        },
    ));
    phases.push(Phase::new(
        "entry-swaps",
        format!(
            "{INDEXES} indexes, the value of each entry replaced by each entry of the same keywords under another \
             user key, before each operation"
        ),
        move |exec| {
            let which = exec.choose(INDEXES);
            let mut w = index(which)?;
            let fx = w.sys.client();
            let good = w.sys.snap();
            let mine = rows(&w)?.into_iter().filter(|r| r.0 == ET).collect::<Vec<_>>();
            let mut c = w.cur();
            c.key[15] ^= 1;
            go(ops::add(&fx, &c, &w.model.assocs().into_iter().collect::<Vec<_>>()))
                .map_err(|e| format!("add: {e}"))?;
            let mut theirs: BTreeMap<[u8; 32], EncryptedValue<80>> = BTreeMap::new();
            for (t, v) in w.sys.snap().et {
                if !good.et.contains_key(&t) {
                    theirs.insert(t.into(), v);
                }
            }
            w.sys.restore(&good);
            let theirs = theirs.into_values().collect::<Vec<_>>();
            let i = exec.choose(mine.len());
            let j = exec.choose(theirs.len());
            let t = exec.pick(&tries()).clone();
            exec.say(|| format!("index {which}: a {} replaced by entry {j} of another key", show_row(&mine[i])));
            *w.sys.et.lock().expect("poisoned").get_mut(&mine[i].1).expect("row") = theirs[j].clone();
            let dmg = [Damage {
                table: ET,
                token: mine[i].1,
                keyword: mine[i].2.clone(),
            }];
            exec.state(codec::hash64(&(which, i, j)));
            attempt(exec, &mut w, &t, &dmg)?;
            repaired(exec, &w, &good, &dmg)
        },
    ));
    phases.push(Phase::new(
        "two-rows",
        format!(
            "{INDEXES} indexes, every pair of rows with one altered bit each (one bit in {} of each), two operations \
             in a row",
            if thorough { 37 } else { 199 }
        ),
        move |exec| {
            let which = exec.choose(INDEXES);
            let mut w = index(which)?;
            let rows = rows(&w)?;
            let i = exec.choose(rows.len());
            let j = exec.choose(rows.len());
            if j <= i {
                return Ok(());
            }
            let step = if thorough { 37 } else { 199 };
            let b = exec.choose(bits(rows[i].0).div_ceil(step)) * step;
            let c = exec.choose(bits(rows[j].0).div_ceil(step)) * step;
            let t = exec.pick(&tries()).clone();
            let u = exec.pick(&tries()).clone();
            exec.say(|| {
                format!("index {which}: bit {b} of a {}, bit {c} of a {}", show_row(&rows[i]), show_row(&rows[j]))
            });
            let good = w.sys.snap();
            let dmg = [damage_bit(&w, &rows[i], b), damage_bit(&w, &rows[j], c)];
            exec.state(codec::hash64(&(which, i, j, b, c)));
            attempt(exec, &mut w, &t, &dmg)?;
            // A compaction moved the rows: the second operation is only described for the first ones.
            if !matches!(t, Try::Compact(..)) {
                attempt(exec, &mut w, &u, &dmg)?;
            }
            repaired(exec, &w, &good, &dmg)
        },
    ));
    {
        let ns = sizes_to(if thorough { 300 } else { 130 });
        phases.push(Phase::new(
            "sizes",
            format!(
                "{}: a bit of the nonce, of the ciphertext or of the tag of the first, second, middle or last row of \
                 either table altered, before a search, an add, a delete and 2 compactions",
                sized_text(&ns)
            ),
            move |exec| {
                let (which, n, all) = sized(exec, &ns);
                let mut w = volume_world(&all);
                let fx = w.sys.client();
                w.add(&fx, &all)?;
                let table = if exec.flag() { ET } else { CT };
                let rows = rows(&w)?.into_iter().filter(|r| r.0 == table).collect::<Vec<_>>();
                let spots =
                    [0, 1, rows.len() / 2, rows.len() - 1].into_iter().filter(|i| *i < rows.len()).collect::<BTreeSet<_>>();
                let row = rows[*exec.pick(&spots.into_iter().collect::<Vec<_>>())].clone();
                let bit = [5, 100, bits(table) - 3][exec.choose(3)];
                let kws = dimension_keywords(which, n);
                let t = match exec.choose(5) {
                    0 => Try::Search(kws),
                    1 => Try::Write(true, kws.into_iter().map(|k| (k, d("new"))).collect()),
                    2 => Try::Write(false, all[n / 2..].to_vec()),
                    3 => Try::Compact(Renew::Label, 1.0),
                    _ => Try::Compact(Renew::Both, 0.0),
                };
                exec.say(|| format!("bit {bit} of a {} altered", show_row(&row)));
                let good = w.sys.snap();
                let dmg = [damage_bit(&w, &row, bit)];
                exec.state(codec::hash64(&(which, n, table, bit)));
                attempt(exec, &mut w, &t, &dmg)?;
                repaired(exec, &w, &good, &dmg)
            },
        ));
    }
    Check {
        id: "C19",
        level: "fault_enumeration",
        rule: "each bit (or whole value) of each row is altered before each operation; a case is nontrivial when the \
               operation needs the damaged row; it must then fail and leave the tables unchanged, and succeed \
               otherwise",
        assumptions: vec!["AES-256-GCM rejects what it did not produce"],
        phases,
    }
}
