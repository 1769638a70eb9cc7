//! C11: a compaction overlapping searches and writes. C12: isolation of keys and labels.
use std::collections::{BTreeMap, BTreeSet};

use super::{
    common::{
        blob, check_exact, compare, dimension_keywords, half, read, sized, sized_text, sizes_to, vary_seed,
        volume_world, Renew, World,
    },
    Check,
};
use crate::{
    codec,
    conc::{self, Res, TOp},
    explore::{Exec, Phase},
    model::{a, d, kw, p, show, show_assocs, show_ivs, Assoc, Cred, Iv, Live, Model},
    ops,
    sim::{go, Bytes, Fx, Kind, CT, ET},
};

const KF1: &str = "KF1";

fn listed(id: &str) -> bool {
    crate::KNOWN.get().is_some_and(|k| k.contains_key(id))
}

fn initial(which: usize) -> Result<World, String> {
    let mut w = World::new(&["a", "b", "c"]);
    let fx = w.sys.client();
    match which {
        0 => {
            w.add(&fx, &[a("a", d("0"))])?;
        }
        1 => {
            w.add(&fx, &[a("a", d("0")), a("a", p("b")), a("b", d("1"))])?;
            w.del(&fx, &[a("b", d("1")), a("a", d("absent"))])?;
            w.add(&fx, &[a("b", d("2"))])?;
        }
        _ => {
            let long = "a value that needs more than a single link to be stored: 80 bytes, or 5 blocks.";
            w.add(&fx, &[a("a", d(long)), a("a", d("0")), a("b", d("gone"))])?;
            w.del(&fx, &[a("b", d("gone"))])?;
        }
    }
    Ok(w)
}

fn write(t: usize, which: usize) -> TOp {
    let v = |s: &str| d(&format!("{s} of {t}"));
    match which {
        0 => TOp::Write(true, vec![a("a", v("x"))]),
        1 => TOp::Write(false, vec![a("a", d("0"))]),
        2 => TOp::Write(true, vec![a("c", v("x"))]),
        3 => TOp::Write(true, vec![a("a", v("x")), a("b", v("y")), a("c", v("z"))]),
        _ => TOp::Write(false, vec![a("a", d("0")), a("b", d("2")), a("c", d("absent"))]),
    }
}

/// Values that a search may see in a keyword: live at some time while it runs.
fn may_see(initial: &BTreeSet<Iv>, writes: &[conc::W], removers: &[conc::W], o: &conc::Obs, v: &Iv) -> bool {
    let removed = |after: u64| {
        removers
            .iter()
            .any(|w| !w.add && w.values.contains(v) && w.iv.before(&o.iv) && w.iv.inv > after)
    };
    if initial.contains(v) && !removed(0) {
        return true;
    }
    writes
        .iter()
        .any(|w| w.add && w.values.contains(v) && !o.iv.before(&w.iv) && !removed(w.iv.resp))
}

fn read_kw(fx: &Fx, cred: &Cred, k: &Bytes) -> Result<BTreeSet<Iv>, String> {
    Ok(read(fx, cred, std::slice::from_ref(k))?.0.remove(k).unwrap_or_default())
}

fn judge(
    exec: &mut Exec,
    w: &World,
    run: &conc::Run,
    old: &Cred,
    new: &Cred,
    // Keywords with an entry under the old credentials before the run (and none under the new ones).
    present: &BTreeSet<Bytes>,
) -> Result<(), String> {
    let none = BTreeSet::new();
    let compaction = run
        .records
        .iter()
        .find(|r| matches!(r.op, TOp::Compact(..)))
        .ok_or("the compaction never ends")?;
    let compacted = matches!(compaction.res, Res::Compacted(Ok(())));
    // Searches.
    for r in &run.records {
        if let Res::Searched(_, Err(e)) = &r.res {
            return Err(format!("{} under {} failed: {e}", r.op.show(), r.cred.show()));
        }
    }
    let all_writes = |k: &Bytes| {
        let mut v = conc::writes_of(&run.records, old, k);
        v.extend(conc::writes_of(&run.records, new, k));
        v
    };
    for k in &w.universe {
        let writes = all_writes(k);
        let init = w.model.live.get(k).unwrap_or(&none);
        for cred in [old, new] {
            // Under the other credentials, only what was written before the compaction counts.
            let removers: Vec<conc::W> = run
                .records
                .iter()
                .filter(|r| matches!(r.res, Res::Wrote(Ok(_))))
                .filter(|r| {
                    r.cred == *cred || (cred == new && compacted && r.iv.before(&compaction.iv))
                })
                .flat_map(|r| conc::writes_of(std::slice::from_ref(r), &r.cred, k))
                .collect();
            for o in conc::obs_of(&run.records, cred, k) {
                exec.validated += 1;
                if let Some(v) = o.set.iter().find(|v| !may_see(init, &writes, &removers, &o, v)) {
                    return Err(format!(
                        "a search sees {} in {} where it is not live",
                        crate::model::show_iv(v),
                        show(k)
                    ));
                }
            }
        }
    }
    conc::check_answers(&run.records)?;
    // Final content.
    let fx = w.sys.client();
    let ok = |r: &conc::Record| matches!(r.res, Res::Wrote(Ok(_)));
    let fetched = run.times(compaction, ET, Kind::Fetch);
    let links = run.times(compaction, CT, Kind::Fetch);
    let deleted = run.times(compaction, ET, Kind::Delete);
    let dumped = run.times(compaction, ET, Kind::Dump);
    // The compaction listed the entry of the keyword under these credentials.
    let listed_entry = |cred: &Cred, k: &Bytes| {
        (cred == old && present.contains(k))
            || run.records.iter().any(|r| {
                r.cred == *cred
                    && matches!(&r.op, TOp::Write(_, x) if x.iter().any(|(k2, _)| k2 == k))
                    && run.times(r, ET, Kind::Upsert).iter().any(|u| dumped.first().is_some_and(|t| u < t))
            })
    };
    // Writes that the compaction may not see although it takes the entry of the keyword away, with what it
    // read before (KF1). It takes those under the new label as well when only the label is renewed.
    let window = |r: &conc::Record, k: &Bytes| {
        if r.cred.key != old.key || !listed_entry(&r.cred, k) {
            return false;
        }
        let upserts = run.times(r, ET, Kind::Upsert);
        let inserts = run.times(r, CT, Kind::Insert);
        let (Some(f), Some(end)) = (fetched.first(), deleted.last()) else {
            return false;
        };
        // An upsert that is refused for some rows is repeated for them.
        let late_entry = upserts.iter().any(|u| f < u && u < end);
        let late_links = upserts.iter().any(|u| u < f)
            && matches!((inserts.last(), links.first()), (Some(i), Some(c)) if c < i);
        late_entry || late_links
    };
    let mut known = None;
    for k in &w.universe {
        let init = w.model.live.get(k).unwrap_or(&none);
        let (end_o, end_n) = (read_kw(&fx, old, k)?, read_kw(&fx, new, k)?);
        exec.validated += 1;
        let touches = |r: &&conc::Record| {
            matches!(&r.op, TOp::Write(_, x) if x.iter().any(|(k2, _)| k2 == k))
        };
        let of_old: Vec<&conc::Record> = run.records.iter().filter(touches).filter(|r| r.cred == *old).collect();
        let of_new: Vec<&conc::Record> = run.records.iter().filter(touches).filter(|r| r.cred == *new).collect();
        let to_w = |r: &conc::Record| {
            let TOp::Write(add, x) = &r.op else { unreachable!() };
            conc::W {
                iv: r.iv,
                add: *add,
                values: x.iter().filter(|(k2, _)| k2 == k).map(|(_, v)| v.clone()).collect(),
            }
        };
        // Each write under the old credentials was moved (0), stayed (1) or was lost (2); a failed one may
        // have taken effect or not.
        let n = of_old.len() + if compacted { of_new.len() } else { 0 };
        let fates = 3usize.pow(n as u32);
        let mut best: Option<bool> = None;
        'fates: for f in 0..fates {
            let mut moved = Vec::new();
            let mut stayed = Vec::new();
            let mut lost = false;
            let mut x = f;
            for r in &of_old {
                let fate = x % 3;
                x /= 3;
                match fate {
                    0 => moved.push(to_w(r)),
                    1 => {
                        // Acknowledged before the compaction: must move with it.
                        if compacted && r.iv.before(&compaction.iv) {
                            continue 'fates;
                        }
                        stayed.push(to_w(r));
                    }
                    _ => {
                        if ok(r) {
                            if !(compacted && window(r, k)) {
                                continue 'fates;
                            }
                            lost = true;
                        }
                    }
                }
            }
            let mut new_ok = Vec::new();
            for r in &of_new {
                // Under the new credentials: kept (0) or lost (2).
                if compacted {
                    let fate = x % 3;
                    x /= 3;
                    match fate {
                        0 => (),
                        1 => continue 'fates,
                        _ => {
                            if ok(r) {
                                if !window(r, k) {
                                    continue 'fates;
                                }
                                lost = true;
                            }
                            continue;
                        }
                    }
                }
                if ok(r) {
                    new_ok.push(to_w(r));
                }
            }
            let explained = if compacted {
                moved.extend(new_ok);
                conc::explain(init, &moved, &[], Some(&end_n)) && conc::explain(&none, &stayed, &[], Some(&end_o))
            } else {
                moved.extend(stayed);
                conc::explain(init, &moved, &[], Some(&end_o)) && conc::explain(&none, &new_ok, &[], Some(&end_n))
            };
            if explained {
                best = Some(best.unwrap_or(true) && lost);
                if !lost {
                    break;
                }
            }
        }
        match best {
            Some(false) => (),
            Some(true) => known = Some(k.clone()),
            None => {
                return Err(format!(
                    "the compaction {} and {} holds {} under the old credentials and {} under the new ones (initially {})",
                    if compacted { "succeeds" } else { "fails" },
                    show(k),
                    show_ivs(&end_o),
                    show_ivs(&end_n),
                    show_ivs(init)
                ));
            }
        }
    }
    exec.outcome(codec::hash64(&(
        compacted,
        known.is_some(),
        run.records
            .iter()
            .filter(|r| matches!(r.op, TOp::Write(..)))
            .map(ok)
            .collect::<Vec<_>>(),
    )));
    let h = w.digest();
    exec.state(h);
    if let Some(k) = known {
        if !listed(KF1) {
            return Err(format!("an acknowledged write of {} is lost", show(&k)));
        }
        exec.known(KF1, format!("an acknowledged write of {} is lost", show(&k)));
        return Ok(());
    }
    // The index stays usable.
    let (holder, other) = if compacted { (new, old) } else { (old, new) };
    let raced = compacted && run.records.iter().any(|r| ok(r) && w.universe.iter().any(|k| window(r, k)));
    if exec.once(h ^ u64::from(compacted) ^ u64::from(raced) << 1) {
        if let Err(e) = usable(exec, w, holder, other) {
            // The links of the write that was lost are still there.
            if !(raced && listed(KF1)) {
                return Err(e);
            }
            exec.known(KF1, format!("after a write was lost: {e}"));
        }
    }
    Ok(())
}

fn usable(exec: &mut Exec, w: &World, holder: &Cred, other: &Cred) -> Result<(), String> {
    let fx = w.sys.client();
    let kws: Vec<Bytes> = w.universe.iter().cloned().collect();
    let live: Live = read(&fx, holder, &kws)?.0;
    let mut model = Model { live };
    let x = [a("a", d("after")), a("c", d("after"))];
    go(ops::add(&fx, holder, &x)).map_err(|e| format!("a later add failed: {e}"))?;
    model.add(&x);
    check_exact(exec, &fx, holder, &model, &kws)?;
    // Entries left under the other credentials would be moved as well.
    if w.present(other).is_empty() {
        let next = Cred { label: b"after".to_vec(), ..holder.clone() };
        go(ops::compact(&fx, holder, &next, 1.0)).map_err(|e| format!("a later compact failed: {e}"))?;
        check_exact(exec, &fx, &next, &model, &kws)?;
    }
    Ok(())
}

/// The compaction of the first task, and the plans of the others: (under the new credentials, call).
fn phase(
    name: &str,
    bounds: String,
    inits: &'static [usize],
    renews: &'static [Renew],
    rates: &'static [f64],
    plans: impl Fn(&mut Exec) -> Vec<Vec<(bool, TOp)>> + Send + Sync + 'static,
) -> Phase {
    let one_client = name.starts_with("one-client");
    Phase::new(
        name,
        format!(
            "{bounds}; {} initial contents, {} renewals, rates {rates:?}; all schedules of the storage requests",
            inits.len(),
            renews.len()
        ),
        move |exec| {
            let init = *exec.pick(inits);
            let renew = *exec.pick(renews);
            let rate = *exec.pick(rates);
            if rate > 0.0 && rate < 1.0 {
                vary_seed(exec, 2);
            }
            let mut w = initial(init)?;
            let old = w.cur();
            let new = w.next_cred(renew);
            let mut all: Vec<Vec<(Cred, TOp)>> = vec![vec![(old.clone(), TOp::Compact(new.clone(), rate))]];
            all.extend(plans(exec).into_iter().map(|p| {
                p.into_iter()
                    .map(|(n, op)| (if n { new.clone() } else { old.clone() }, op))
                    .collect()
            }));
            let n = if one_client { 1 } else { all.len() };
            let clients: Vec<Fx> = (0..n).map(|_| w.sys.client()).collect();
            let present = w.present(&old);
            let Some(run) = conc::run_faulty(exec, &w.sys.ctl, &clients, &all, 0, &[], &[]) else {
                return Ok(());
            };
            judge(exec, &w, &run, &old, &new, &present)
        },
    )
}

fn search(which: usize) -> TOp {
    TOp::Search(if which == 0 { vec![kw("a")] } else { vec![kw("a"), kw("b"), kw("c")] })
}

const RENEWS: &[Renew] = &[Renew::Label, Renew::Key, Renew::Both];

pub fn c11(thorough: bool) -> Check {
    let mut phases = Vec::new();
    phases.push(phase(
        "searches",
        "a compaction and a client searching once or twice under the old or new credentials (2 sets)".into(),
        &[0, 1, 2],
        RENEWS,
        &[1.0, 0.0, 0.4],
        |exec| {
            let mut plan = vec![(exec.flag(), search(exec.choose(2)))];
            if exec.flag() {
                plan.push((exec.flag(), search(1)));
            }
            vec![plan]
        },
    ));
    phases.push(phase(
        "two-searches",
        "a compaction and two clients searching once under the old or new credentials".into(),
        &[1],
        if thorough { RENEWS } else { &[Renew::Label] },
        &[1.0, 0.0],
        |exec| (0..2).map(|_| vec![(exec.flag(), search(1))]).collect(),
    ));
    phases.push(phase(
        "writer",
        "a compaction and a client with a write (5, under the old or new credentials)".into(),
        &[0, 1, 2],
        RENEWS,
        &[1.0, 0.0, 0.4],
        |exec| vec![vec![(exec.flag(), write(0, exec.choose(5)))]],
    ));
    phases.push(phase(
        "one-client-writes",
        "a compaction and a write (5, under the old or new credentials) by the same client at the same time".into(),
        if thorough { &[0, 1, 2] } else { &[1] },
        if thorough { RENEWS } else { &[Renew::Label, Renew::Both] },
        &[1.0, 0.0],
        |exec| vec![vec![(exec.flag(), write(0, exec.choose(5)))]],
    ));
    phases.push(phase(
        "one-client-searches",
        "a compaction and a search (2 sets, under the old or new credentials) by the same client at the same time".into(),
        if thorough { &[0, 1, 2] } else { &[1] },
        if thorough { RENEWS } else { &[Renew::Label, Renew::Both] },
        &[1.0, 0.0],
        |exec| vec![vec![(exec.flag(), search(exec.choose(2)))]],
    ));
    phases.push(phase(
        "two-writes",
        "a compaction and a client with 2 writes (5 x 5, under the old or new credentials)".into(),
        if thorough { &[0, 1, 2] } else { &[1] },
        if thorough { RENEWS } else { &[Renew::Label] },
        &[1.0, 0.0],
        |exec| {
            vec![vec![
                (exec.flag(), write(0, exec.choose(5))),
                (exec.flag(), write(1, exec.choose(5))),
            ]]
        },
    ));
    phases.push(phase(
        "writer-and-search",
        "a compaction, a client with a write and a client searching, under the old or new credentials".into(),
        if thorough { &[0, 1] } else { &[1] },
        if thorough { &[Renew::Label, Renew::Both] } else { &[Renew::Label] },
        if thorough { &[1.0, 0.0] } else { &[1.0] },
        move |exec| {
            let n: &[usize] = if exec.thorough { &[0, 1, 2, 3, 4] } else { &[0, 1] };
            let write = (exec.flag(), write(0, *exec.pick(n)));
            vec![vec![write], vec![(exec.flag(), search(1))]]
        },
    ));
    phases.push(phase(
        "two-writers",
        "a compaction and two clients with a write under the old or new credentials".into(),
        if thorough { &[0, 1] } else { &[0] },
        if thorough { &[Renew::Label, Renew::Both] } else { &[Renew::Label] },
        if thorough { &[1.0, 0.0] } else { &[1.0] },
        move |exec| {
            let n: &[usize] = if exec.thorough { &[0, 1, 2, 3] } else { &[0, 1] };
            (0..2).map(|t| vec![(exec.flag(), write(t, *exec.pick(n)))]).collect()
        },
    ));
    {
        let ns = sizes_to(if thorough { 512 } else { 100 });
        phases.push(Phase::new(
            "sizes",
            format!(
                "{} (not the paths), a compaction (2 renewals, rates 1, 0) and a client searching all of it, or adding or \
                 deleting half of it, under the old or new credentials, all schedules of the storage requests",
                sized_text(&ns)
            ),
            move |exec| {
                let (which, n, all) = sized(exec, &ns);
                if which == 4 || (n > 128 && which == 3) {
                    return Ok(());
                }
                let renew = *exec.pick(&[Renew::Label, Renew::Both]);
                let rate = *exec.pick(&[1.0, 0.0]);
                let mut w = volume_world(&all);
                let fx = w.sys.client();
                w.add(&fx, &all)?;
                let old = w.cur();
                let new = w.next_cred(renew);
                let cred = if exec.flag() { new.clone() } else { old.clone() };
                let op = match exec.choose(3) {
                    0 => TOp::Search(w.universe.iter().cloned().collect()),
                    1 => {
                        let x: Vec<Assoc> =
                            half(&all).into_iter().map(|(k, _)| (k, d("new"))).collect::<BTreeSet<_>>().into_iter().collect();
                        TOp::Write(true, x)
                    }
                    _ => TOp::Write(false, half(&all)),
                };
                let plans = vec![vec![(old.clone(), TOp::Compact(new.clone(), rate))], vec![(cred, op)]];
                let clients: Vec<Fx> = plans.iter().map(|_| w.sys.client()).collect();
                let present = w.present(&old);
                let Some(run) = conc::run_faulty(exec, &w.sys.ctl, &clients, &plans, 0, &[], &[]) else {
                    return Ok(());
                };
                judge(exec, &w, &run, &old, &new, &present)
            },
        ));
    }
    Check {
        id: "C11",
        level: "model_checking",
        rule: "every schedule of the storage requests of the clients of every plan; every value seen must be \
               live at some time of the search, and the final content under both credentials must be that of \
               a sequential order of the calls",
        assumptions: vec![
            "storage requests are atomic (C16 decides it for the bundled store)",
            "clients beyond the bounds (a compaction and 1 or 2 other clients, 1 or 2 calls each) behave as \
             those inside",
        ],
        phases,
    }
}

// C12 -------------------------------------------------------------------------------------------

fn c12_content() -> Vec<Assoc> {
    vec![a("a", d("0")), a("a", p("b")), a("b", d("1")), a("", d("2"))]
}

fn nothing(exec: &mut Exec, fx: &Fx, cred: &Cred, what: &str) -> Result<(), String> {
    let kws = [kw("a"), kw("b"), kw("")];
    let (live, found) = read(fx, cred, &kws).map_err(|e| format!("{what}: {e}"))?;
    exec.validated += 1;
    exec.transitions += 1;
    if !live.is_empty() || found.values().any(|s| !s.is_empty()) {
        return Err(format!("{what}: the search finds something"));
    }
    if found.len() != kws.len() {
        return Err(format!("{what}: the search does not answer for the requested keywords"));
    }
    Ok(())
}

/// Same as `nothing`, and the client has just used the right key and label.
fn nothing_beside(exec: &mut Exec, fx: &Fx, right: &Cred, cred: &Cred, what: &str) -> Result<(), String> {
    let (live, _) = read(fx, right, &[kw("b")]).map_err(|e| format!("right key and label: {e}"))?;
    if live.get(&kw("b")).map_or(0, BTreeSet::len) != 1 {
        return Err(format!("the search under the right key and label before {what} does not find the index"));
    }
    nothing(exec, fx, cred, what)
}

/// Several pairs of key and label in the same tables.
fn contexts(which: usize) -> Vec<Cred> {
    let k = Cred::new(0, "").key;
    let mut k2 = k;
    k2[15] ^= 1;
    let mut k3 = k;
    k3[0] ^= 0x80;
    let c = |key: [u8; 16], label: &[u8]| Cred { key, label: label.to_vec() };
    match which {
        0 => vec![c(k, b"label"), c(k, b"labe"), c(k, b"labels")],
        1 => vec![c(k, b""), c(k, b"\0"), c(k, b"label")],
        2 => vec![c(k, b"label"), c(k2, b"label"), c(k3, b"label")],
        3 => vec![c(k, b"a"), c(k2, b"b"), c(k2, b"a")],
        _ => vec![c(k, &[7; 200]), c(k, &[7; 199]), c(k2, &[])],
    }
}

fn check_contexts(exec: &mut Exec, fx: &Fx, creds: &[Cred], models: &[Model], kws: &[Bytes]) -> Result<(), String> {
    for (c, m) in creds.iter().zip(models) {
        check_exact(exec, fx, c, m, kws).map_err(|e| format!("under {}: {e}", c.show()))?;
    }
    Ok(())
}

pub fn c12(thorough: bool) -> Check {
    let mut phases = Vec::new();
    phases.push(Phase::new(
        "keys",
        "an index searched with each of the 128 keys that differ by one bit, each of the 8128 that differ by 2, \
         and each key one byte of which takes any other value; 4 labels"
            .to_string(),
        |exec| {
            let label = exec.pick(&[&b"label"[..], b"", b"\0", &[0xff; 64]]).to_vec();
            let part = exec.choose(16);
            let mut w = World::new(&["a", "b", ""]);
            w.creds[0].label = label;
            let fx = w.sys.client();
            w.add(&fx, &c12_content())?;
            let cred = w.cur();
            for i in part * 8..(part + 1) * 8 {
                let mut c = cred.clone();
                c.key[i / 8] ^= 1 << (i % 8);
                nothing_beside(exec, &fx, &cred, &c, &format!("key with bit {i} changed"))?;
                for j in i + 1..128 {
                    let mut c = c.clone();
                    c.key[j / 8] ^= 1 << (j % 8);
                    nothing_beside(exec, &fx, &cred, &c, &format!("key with bits {i} and {j} changed"))?;
                }
            }
            for v in 1..=255 {
                let mut c = cred.clone();
                c.key[part] ^= v;
                nothing_beside(exec, &fx, &cred, &c, &format!("key with byte {part} changed"))?;
            }
            exec.state(w.digest() ^ part as u64);
            check_exact(exec, &fx, &cred, &w.model, &[kw("a"), kw("b"), kw("")])
        },
    ));
    phases.push(Phase::new(
        "keys-writes",
        "a client that writes under a key, then under each of the 128 keys that differ by one bit and the 8128 that \
         differ by 2: an add then a delete, after an add or a search under the first key"
            .to_string(),
        |exec| {
            let part = exec.choose(16);
            let after = exec.flag();
            let mut w = World::new(&["a", "b", ""]);
            let fx = w.sys.client();
            w.add(&fx, &c12_content())?;
            let cred = w.cur();
            let x = [a("a", d("0")), a("b", d("3"))];
            let one = |exec: &mut Exec, c: &Cred, what: String| {
                exec.transitions += 2;
                exec.validated += 1;
                let err = |e: crate::sim::FErr| format!("{what}: {e}");
                if after {
                    go(ops::search(&fx, &cred, &[kw("b")])).map_err(err)?;
                } else {
                    go(ops::add(&fx, &cred, &[a("b", d("1"))])).map_err(err)?;
                }
                if go(ops::add(&fx, c, &x)).map_err(err)?.len() != 2 {
                    return Err(format!("{what}: an add takes keywords of another key for those of this one"));
                }
                if after {
                    go(ops::search(&fx, &cred, &[kw("b")])).map_err(err)?;
                } else {
                    go(ops::add(&fx, &cred, &[a("b", d("1"))])).map_err(err)?;
                }
                go(ops::del(&fx, c, &[a("a", d("0"))])).map_err(err)?;
                let (live, _) = read(&fx, c, &[kw("a"), kw("b"), kw("")]).map_err(|e| format!("{what}: {e}"))?;
                if live.len() != 1 || live.get(&kw("b")) != Some(&BTreeSet::from([d("3")])) {
                    return Err(format!("{what}: what is written under this key is not what it finds"));
                }
                Ok(())
            };
            for i in part * 8..(part + 1) * 8 {
                let mut c = cred.clone();
                c.key[i / 8] ^= 1 << (i % 8);
                one(exec, &c, format!("key with bit {i} changed"))?;
                for j in i + 1..128 {
                    let mut c = c.clone();
                    c.key[j / 8] ^= 1 << (j % 8);
                    one(exec, &c, format!("key with bits {i} and {j} changed"))?;
                }
            }
            exec.state(w.digest() ^ (part * 2 + usize::from(after)) as u64);
            check_exact(exec, &fx, &cred, &w.model, &[kw("a"), kw("b"), kw("")])
        },
    ));
    {
        let top = if thorough { 300 } else { 80 };
        phases.push(Phase::new(
            "labels",
            format!(
                "an index under each label of 0..{top} bytes (3 contents), searched with each prefix, each \
                 extension by one byte, each one-bit variation, and the label of another letter case or padded"
            ),
            move |exec| {
                let len = exec.choose(top);
                let style = exec.choose(3);
                let label: Bytes = (0..len)
                    .map(|i| match style {
                        0 => 0,
                        1 => 0xff,
                        _ => b'a' + (i % 26) as u8,
                    })
                    .collect();
                exec.say(|| format!("label {}", show(&label)));
                let mut w = World::new(&["a", "b", ""]);
                w.creds[0].label = label.clone();
                let fx = w.sys.client();
                w.add(&fx, &c12_content())?;
                let cred = w.cur();
                let other = |l: Bytes| Cred { label: l, ..cred.clone() };
                for n in 0..len {
                    nothing_beside(exec, &fx, &cred, &other(label[..n].to_vec()), &format!("label cut to {n} bytes"))?;
                    if n > 0 {
                        nothing_beside(exec, &fx, &cred, &other(label[n..].to_vec()), &format!("label without its {n} first bytes"))?;
                    }
                }
                for v in 0..=255u8 {
                    let mut l = label.clone();
                    l.push(v);
                    nothing_beside(exec, &fx, &cred, &other(l), &format!("label followed by {v}"))?;
                    let mut l = label.clone();
                    l.insert(0, v);
                    nothing_beside(exec, &fx, &cred, &other(l), &format!("label preceded by {v}"))?;
                }
                for i in 0..len * 8 {
                    let mut l = label.clone();
                    l[i / 8] ^= 1 << (i % 8);
                    nothing_beside(exec, &fx, &cred, &other(l), &format!("label with bit {i} changed"))?;
                }
                if style == 2 && len > 0 {
                    nothing_beside(exec, &fx, &cred, &other(label.to_ascii_uppercase()), "label in upper case")?;
                    let mut l = label.clone();
                    l.reverse();
                    if l != label {
                        nothing_beside(exec, &fx, &cred, &other(l), "reversed label")?;
                    }
                }
                exec.state(w.digest() ^ (len * 3 + style) as u64);
                check_exact(exec, &fx, &cred, &w.model, &[kw("a"), kw("b"), kw("")])
            },
        ));
    }
    phases.push(Phase::new(
        "boundary",
        "all splits of a byte string between keyword and label: only the split used to index finds it".to_string(),
        |exec| {
            let s = *exec.pick(&[&b"abcdef"[..], b"\0\0\0\0", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]);
            let at = exec.choose(s.len() + 1);
            let mut w = World::new(&[]);
            w.creds[0].label = s[at..].to_vec();
            let k = s[..at].to_vec();
            let fx = w.sys.client();
            w.add(&fx, &[(k.clone(), d("x"))])?;
            for other in 0..=s.len() {
                let c = Cred { label: s[other..].to_vec(), ..w.cur() };
                let (_, found) = read(&fx, &c, &[s[..other].to_vec()])?;
                exec.validated += 1;
                exec.transitions += 1;
                if found[&s[..other].to_vec()].is_empty() != (other != at) {
                    return Err(format!("split {at} searched as split {other}"));
                }
                for l in 0..=s.len() {
                    let c = Cred { label: s[l..].to_vec(), ..w.cur() };
                    let (_, found) = read(&fx, &c, &[s[..other].to_vec()])?;
                    let same = s[..other] == k[..] && c.label == w.cur().label;
                    if found[&s[..other].to_vec()].is_empty() == same {
                        return Err(format!("split {at}: keyword of {other} bytes under a label of {} bytes", s.len() - l));
                    }
                }
            }
            exec.state((at + s.len() * 100) as u64);
            Ok(())
        },
    ));
    {
        let ns = sizes_to(if thorough { 4096 } else { 1024 });
        phases.push(Phase::new(
            "sizes",
            format!(
                "{} under each of 3 key-label pairs (5 triples) of the same tables: all of it, every other \
                 association, and values of another index only; then half of it deleted under one of them",
                sized_text(&ns)
            ),
            move |exec| {
                let creds = contexts(exec.choose(5));
                let (which, n, all) = sized(exec, &ns);
                if which == 4 && n > 300 {
                    return Ok(());
                }
                let w = volume_world(&all);
                let fx = w.sys.client();
                let kws = dimension_keywords(which, n);
                let other: Vec<Assoc> =
                    kws.iter().map(|k| (k.clone(), d("other"))).collect::<BTreeSet<_>>().into_iter().collect();
                let mut models = vec![Model::default(); 3];
                for (i, x) in [all.clone(), half(&all), other].iter().enumerate() {
                    go(ops::add(&fx, &creds[i], x)).map_err(|e| format!("add failed: {e}"))?;
                    models[i].add(x);
                }
                let who = exec.choose(3);
                let x = half(&all);
                go(ops::del(&fx, &creds[who], &x)).map_err(|e| format!("delete failed: {e}"))?;
                models[who].del(&x);
                exec.transitions += 4;
                exec.state(codec::hash64(&(which, n, who)));
                check_contexts(exec, &fx, &creds, &models, &kws)
            },
        ));
    }
    let label_sizes = sizes_to(if thorough { 1 << 16 } else { 4096 }).into_iter().filter(|n| *n > 60).collect::<Vec<_>>();
    phases.push(Phase::new(
        "long-labels",
        format!(
            "labels of {} sizes up to {}: each prefix and suffix whose size is a power of 2 or 10, one less or one more, \
             each one-bit variation of the bytes at these places and from the end, one more byte",
            label_sizes.len(),
            label_sizes.last().expect("not empty")
        ),
        move |exec| {
            let len = *exec.pick(&label_sizes);
            let label = blob(len, 5);
            let mut w = World::new(&["a", "b", ""]);
            w.creds[0].label = label.clone();
            let fx = w.sys.client();
            w.add(&fx, &c12_content())?;
            let cred = w.cur();
            let other = |l: Bytes| Cred { label: l, ..cred.clone() };
            for n in sizes_to(len).into_iter().chain([0]).filter(|n| *n < len) {
                nothing_beside(exec, &fx, &cred, &other(label[..n].to_vec()), &format!("label of {len} bytes cut to {n} bytes"))?;
                nothing_beside(exec, &fx, &cred, &other(label[..len - n - 1].to_vec()), &format!("label of {len} bytes without the {} last", n + 1))?;
                nothing_beside(exec, &fx, &cred, &other(label[n + 1..].to_vec()), &format!("label of {len} bytes without the {} first", n + 1))?;
                for bit in 0..8 {
                    for at in [n, len - 1 - n] {
                        let mut l = label.clone();
                        l[at] ^= 1 << bit;
                        nothing_beside(exec, &fx, &cred, &other(l), &format!("label of {len} bytes with bit {bit} of byte {at} changed"))?;
                    }
                }
            }
            let mut l = label.clone();
            l.push(0);
            nothing_beside(exec, &fx, &cred, &other(l), "label with one more byte")?;
            exec.state(len as u64);
            check_exact(exec, &fx, &cred, &w.model, &[kw("a"), kw("b"), kw("")])
        },
    ));
    let depth = if thorough { 4 } else { 3 };
    phases.push(Phase::new(
        "histories",
        format!(
            "5 triples of key and label, all histories of 1 to {depth} calls out of 5 (adds, deletes, search) under \
             any of the three, by a common or own clients; then a compaction with one of the keys"
        ),
        move |exec| {
            let creds = contexts(exec.choose(5));
            let n = 1 + exec.choose(depth);
            let w = World::new(&["a", "b"]);
            let own = exec.flag();
            let fxs: Vec<Fx> = (0..3).map(|_| w.sys.client()).collect();
            let mut models = vec![Model::default(); 3];
            let kws = [kw("a"), kw("b")];
            let mut digest = Vec::new();
            for _ in 0..n {
                let who = exec.choose(3);
                let c = exec.choose(5);
                let fx = &fxs[if own { who } else { 0 }];
                let (add, x) = match c {
                    0 => (true, vec![a("a", d("x"))]),
                    1 => (true, vec![a("a", d("y")), a("a", p("b")), a("b", d("x"))]),
                    2 => (false, vec![a("a", d("x"))]),
                    3 => (false, vec![a("a", d("y")), a("b", d("x"))]),
                    _ => {
                        let found = go(ops::search(fx, &creds[who], &kws)).map_err(|e| format!("search failed: {e}"))?;
                        compare(&models[who], &kws, &found)?;
                        continue;
                    }
                };
                exec.say(|| format!("under {}: {} [{}]", creds[who].show(), if add { "add" } else { "delete" }, show_assocs(&x)));
                exec.transitions += 1;
                digest.push((who, c));
                let new = go(ops::write(fx, &creds[who], add, &x)).map_err(|e| format!("write failed: {e}"))?;
                let touched: BTreeSet<Bytes> = x.iter().map(|(k, _)| k.clone()).collect();
                let fresh: BTreeSet<Bytes> =
                    touched.iter().filter(|k| !models[who].live.contains_key(*k)).cloned().collect();
                if new != fresh {
                    return Err("keywords of another index are taken for those of this one".into());
                }
                for k in &touched {
                    models[who].live.entry(k.clone()).or_default();
                }
                if add {
                    models[who].add(&x);
                } else {
                    models[who].del(&x);
                }
                check_contexts(exec, fx, &creds, &models, &kws)?;
            }
            exec.state(codec::hash64(&(&creds, w.digest(), models.iter().map(|m| &m.live).collect::<Vec<_>>())));
            // A compaction needs the key of every entry.
            let who = exec.choose(3);
            let to = Cred { label: b"moved".to_vec(), ..creds[who].clone() };
            let foreign = (0..3).any(|i| creds[i].key != creds[who].key && !models[i].live.is_empty());
            if foreign {
                let before = w.sys.snap();
                let res = go(ops::compact(&fxs[0], &creds[who], &to, *exec.pick(&[1.0, 0.0])));
                exec.validated += 1;
                if res.is_ok() {
                    return Err("a compaction succeeds although some entries are under another key".into());
                }
                if w.sys.snap() != before {
                    return Err("a compaction fails because of entries under another key, and changes the tables".into());
                }
                check_contexts(exec, &fxs[0], &creds, &models, &kws)?;
            }
            Ok(())
        },
    ));
    let conc_phase = |name: &str, bounds: &str, plan: fn(&mut Exec) -> Vec<Vec<(usize, TOp)>>, threads: bool| {
        Phase::new(name, bounds.to_string(), move |exec: &mut Exec| {
            let creds = contexts(exec.choose(4));
            let plans = plan(exec);
            let shared = !threads && plans.iter().map(Vec::len).sum::<usize>() == 2 && exec.flag();
            let w = World::new(&["a", "b"]);
            let fx = w.sys.client();
            let mut models = vec![Model::default(); 3];
            let x = [a("a", d("0")), a("b", d("0"))];
            for i in 0..2 {
                go(ops::add(&fx, &creds[i], &x)).map_err(|e| format!("add failed: {e}"))?;
                models[i].add(&x);
            }
            let plans: Vec<Vec<(Cred, TOp)>> = plans
                .into_iter()
                .map(|p| p.into_iter().map(|(c, op)| (creds[c].clone(), op)).collect())
                .collect();
            let records = if threads {
                conc::run_threads(exec, &w.sys, &plans)?
            } else {
                let clients: Vec<Fx> =
                    (0..if shared { 1 } else { plans.len() }).map(|_| w.sys.client()).collect();
                match conc::run(exec, &w.sys.ctl, &clients, &plans) {
                    Some(r) => r,
                    None => return Ok(()),
                }
            };
            conc::all_ok(&records)?;
            let kws: Vec<Bytes> = w.universe.iter().cloned().collect();
            for (c, m) in creds.iter().zip(&models) {
                let (last, _) = read(&fx, c, &kws)?;
                conc::check_keywords(exec, &records, c, &m.live, &last, &w.universe, true)
                    .map_err(|e| format!("under {}: {e}", c.show()))?;
                let present: BTreeSet<Bytes> = m.live.keys().cloned().collect();
                conc::check_new(&records, c, &present).map_err(|e| format!("under {}: {e}", c.show()))?;
            }
            let mut live: BTreeMap<usize, Live> = BTreeMap::new();
            for (i, c) in creds.iter().enumerate() {
                live.insert(i, read(&fx, c, &kws)?.0);
            }
            exec.state(codec::hash64(&(&creds, live)));
            Ok(())
        })
    };
    fn op(exec: &mut Exec, t: usize) -> TOp {
        match exec.choose(4) {
            0 => TOp::Write(true, vec![a("a", d(&format!("x of {t}"))), a("b", d("y"))]),
            1 => TOp::Write(false, vec![a("a", d("0"))]),
            2 => TOp::Write(true, vec![a("a", p("b")), a("a", d("x"))]),
            _ => TOp::Search(vec![kw("a"), kw("b")]),
        }
    }
    phases.push(conc_phase(
        "two-clients",
        "2 clients, 1 call out of 4 each, under any of 3 credentials (4 triples), sharing an instance or not, all \
         schedules of the storage requests",
        |exec| (0..2).map(|t| vec![(exec.choose(3), op(exec, t))]).collect(),
        false,
    ));
    phases.push(conc_phase(
        "three-clients",
        "3 clients, 1 call out of 4 each, one per credentials (4 triples), all schedules of the storage requests",
        |exec| (0..3).map(|t| vec![(t, op(exec, t))]).collect(),
        false,
    ));
    if thorough {
        phases.push(conc_phase(
            "two-by-two",
            "2 clients, 2 calls out of 4 each, under 2 of 3 credentials (4 triples), all schedules of the storage \
             requests",
            |exec| {
                (0..2)
                    .map(|t| vec![(t, op(exec, t)), (exec.choose(3), op(exec, t + 2))])
                    .collect()
            },
            false,
        ));
    }
    phases.push(conc_phase(
        "locks",
        "2 threads, 1 call out of 4 each under different credentials (4 triples), all schedules of the lock operations \
         of the in-memory store",
        |exec| (0..2).map(|t| vec![(t, op(exec, t))]).collect(),
        true,
    ));
    Check {
        id: "C12",
        level: "model_checking",
        rule: "every variation of the key and of the label, every history and every schedule over several \
               credentials; each credentials must behave as if alone",
        assumptions: vec!["keys and labels outside of the explored variations behave as those inside"],
        phases,
    }
}
