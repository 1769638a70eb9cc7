//! C05 (content) and C06 (storage): compaction. Both explore the same executions, with other oracles.
use std::collections::{BTreeMap, BTreeSet};

use super::{
    common::{
        blob, check_exact, dimension, half, sizes, sizes_to, vary_order, vary_seed, volume_world, Compacted,
        Filter, Op, Renew, World, DIMENSIONS,
    },
    Check,
};
use crate::{
    codec,
    explore::{Exec, Phase},
    model::{a, d, kw, p, show, show_set, Assoc, Iv, Model},
    sim::{Bytes, Fx},
};

pub struct Done<'a> {
    pub w: &'a World,
    pub fx: &'a Fx,
    pub model_before: Model,
    pub c: &'a Compacted,
    pub rate: f64,
    pub filter: &'a Filter,
}

type Oracle = fn(&mut Exec, &Done) -> Result<(), String>;

fn data_of(m: &Model, kws: impl Iterator<Item = Bytes>) -> BTreeSet<Bytes> {
    kws.flat_map(|k| m.of(&k))
        .filter_map(|iv| match iv {
            Iv::D(d) => Some(d),
            Iv::P(_) => None,
        })
        .collect()
}

/// C05: content.
fn content(exec: &mut Exec, x: &Done) -> Result<(), String> {
    let all: Vec<Bytes> = x.w.universe.iter().cloned().collect();
    let mut given = BTreeSet::new();
    for g in &x.c.given {
        given.extend(g.iter().cloned());
    }
    let allowed = data_of(&x.model_before, x.c.rewritten.iter().cloned());
    if let Some(e) = given.difference(&allowed).next() {
        return Err(format!(
            "the filter is given {} which is not live in a compacted chain",
            show(e)
        ));
    }
    if let Some(e) = allowed.difference(&given).next() {
        return Err(format!("{} of a compacted chain was not given to the filter", show(e)));
    }
    if x.rate >= 1.0 {
        let live = data_of(&x.model_before, x.w.universe.iter().cloned());
        if given != live {
            return Err(format!(
                "full compaction: the filter is given {} instead of {}",
                show_set(&given),
                show_set(&live)
            ));
        }
        // What the filter does not return is gone.
        let kept = x.filter.apply(live.clone());
        let mut want = x.model_before.clone();
        want.retain_data(|d| kept.contains(d));
        if want.assocs() != x.w.model.assocs() {
            return Err("full compaction: some chains were not compacted".to_string());
        }
    }
    check_exact(exec, x.fx, &x.w.cur(), &x.w.model, &all)?;
    for k in all.iter().take(if all.len() > 200 { 20 } else { 200 }) {
        check_exact(exec, x.fx, &x.w.cur(), &x.w.model, std::slice::from_ref(k))?;
    }
    x.w.check_former(exec, x.fx, &all)
}

/// C06: storage.
fn storage(exec: &mut Exec, x: &Done) -> Result<(), String> {
    let (before, after) = (&x.c.before, &x.c.after);
    exec.validated += 1;
    if x.rate <= 0.0 && !x.c.rewritten.is_empty() {
        return Err(format!("a compaction at rate {} rewrites chains", x.rate));
    }
    let values_before = before.et_set();
    let after_set = after.et_set();
    let olds: BTreeSet<&Bytes> = values_before.values().collect();
    for (t, v) in &after_set {
        if values_before.contains_key(t) {
            return Err("an entry token stored before the compaction is still stored".to_string());
        }
        if olds.contains(v) {
            return Err("an entry value stored before the compaction is still stored".to_string());
        }
    }
    let n = x.w.creds.len();
    let (old, new) = (&x.w.creds[n - 2], &x.w.creds[n - 1]);
    let d0 = codec::decode(before, &old.key)?;
    let d1 = codec::decode(after, &new.key)?;
    if !d1.orphans.is_empty() {
        return Err(format!("{} chain rows belong to no entry", d1.orphans.len()));
    }
    if !d1.foreign.is_empty() {
        return Err("an entry cannot be read with the new key".to_string());
    }
    let ct0 = before.ct_set();
    let ct1 = after.ct_set();
    let by0: BTreeMap<_, _> = d0.entries.iter().map(|e| (e.kw_hash, e)).collect();
    let mut by1 = BTreeMap::new();
    for e in &d1.entries {
        if by1.insert(e.kw_hash, e).is_some() {
            return Err("two entries are stored for a keyword".to_string());
        }
    }
    for k in &x.w.universe {
        let h = codec::hash_kw(k);
        let (e0, e1) = (by0.get(&h), by1.get(&h));
        let Some(e0) = e0 else {
            if e1.is_some() {
                return Err(format!("an entry appeared for {}", show(k)));
            }
            continue;
        };
        if x.c.rewritten.contains(k) {
            for t in &e0.chain {
                if ct1.contains_key(t) {
                    return Err(format!("a row of the former chain of {} is still stored", show(k)));
                }
            }
            let live = x.w.model.of(k);
            if live.is_empty() {
                if e1.is_some() {
                    return Err(format!("an entry is left for {} which holds nothing", show(k)));
                }
                continue;
            }
            let Some(e1) = e1 else {
                return Err(format!("the entry of {} disappeared", show(k)));
            };
            let raws: Vec<Bytes> = live.iter().map(codec::to_raw).collect();
            let need = codec::links_needed(raws.iter());
            if e1.chain.len() != need || e1.missing != 0 {
                return Err(format!(
                    "{} rows ({} missing) for {} which needs {need}",
                    e1.chain.len(),
                    e1.missing,
                    show(k)
                ));
            }
            let stored = e1.links.iter().flatten().collect::<Vec<_>>();
            if stored.len() != raws.len() || stored.iter().any(|(add, _)| !add) {
                return Err(format!("the chain of {} holds useless values", show(k)));
            }
        } else {
            let Some(e1) = e1 else {
                return Err(format!("the entry of the untouched chain of {} disappeared", show(k)));
            };
            if e1.chain != e0.chain {
                return Err(format!("the untouched chain of {} changed", show(k)));
            }
            if e0.chain.iter().any(|t| ct0.get(t) != ct1.get(t)) {
                return Err(format!("a row of the untouched chain of {} changed", show(k)));
            }
        }
    }
    if x.rate >= 1.0 {
        for (h, e) in &by0 {
            if by1.get(h).is_some_and(|e1| e1.seed == e.seed) {
                return Err("full compaction: a chain was not renewed".to_string());
            }
        }
        let live = x.w.model.live.values().filter(|s| !s.is_empty()).count();
        if after.et.len() != live {
            return Err(format!(
                "full compaction: {} entries for {live} keywords with associations",
                after.et.len()
            ));
        }
    }
    Ok(())
}

fn compact(
    exec: &mut Exec,
    w: &mut World,
    fx: &Fx,
    oracle: Oracle,
    renew: Renew,
    rate: f64,
    filter: &Filter,
) -> Result<(), String> {
    exec.transitions += 1;
    exec.say(|| format!("compact renewing {renew:?} at rate {rate}, filter: {}", filter.show()));
    let model_before = w.model.clone();
    let c = w.compact(fx, renew, rate, filter)?;
    exec.outcome(codec::hash64(&c.rewritten));
    exec.count("chains_rewritten", c.rewritten.len() as u64);
    oracle(
        exec,
        &Done {
            w,
            fx,
            model_before,
            c: &c,
            rate,
            filter,
        },
    )?;
    exec.state(w.digest());
    Ok(())
}

fn writes() -> Vec<Op> {
    let many = (0..8).map(|i| a("a", d(&format!("m{i}")))).collect::<Vec<_>>();
    vec![
        Op::Add(vec![a("a", d("1")), a("b", d("1")), a("b", d("2")), a("c", p("a"))]),
        Op::Add(vec![a("a", d("1")), a("a", d("a longer value of thirty bytes"))]),
        Op::Del(vec![a("a", d("1")), a("b", d("2"))]),
        Op::Del(vec![a("b", d("1")), a("c", p("a"))]),
        Op::Add(vec![a("c", p("b")), a("b", p("c")), a("a", p("nothing"))]),
        Op::Add(many.clone()),
        Op::Del(many),
        Op::Del(vec![a("b", d("1")), a("b", d("2")), a("b", p("c"))]),
    ]
}

fn filters() -> Vec<Filter> {
    let set = |x: &[&str]| x.iter().map(|s| s.as_bytes().to_vec()).collect::<BTreeSet<_>>();
    vec![
        Filter::KeepAll,
        Filter::Drop(set(&["1"])),
        Filter::Drop(set(&["2", "m0", "m7"])),
        Filter::Drop(set(&["a longer value of thirty bytes", "2"])),
        Filter::Extra(b"never indexed".to_vec()),
        Filter::KeepNone,
    ]
}

const RENEWS: [Renew; 4] = [Renew::Label, Renew::Key, Renew::Both, Renew::Back];
const RATES: [f64; 7] = [0.0, 0.1, 0.3, 0.5, 0.9, 1.0, 2.5];

fn phases(thorough: bool, oracle: Oracle) -> Vec<Phase> {
    let mut phases = Vec::new();
    {
        let depth = if thorough { 3 } else { 2 };
        let (ws, fs) = (writes(), filters());
        phases.push(Phase::new(
            "histories",
            format!(
                "all histories of up to {depth} writes over {} calls, then a compaction: 3 renewals x \
                 {} rates x {} filters",
                ws.len(),
                RATES.len(),
                fs.len()
            ),
            move |exec| {
                let mut w = World::new(&["a", "b", "c"]);
                let fx = w.sys.client();
                let n = exec.choose(depth + 1);
                for _ in 0..n {
                    let op = exec.pick(&ws).clone();
                    exec.say(|| op.show());
                    w.apply(exec, &fx, &op)?;
                }
                let renew = *exec.pick(&RENEWS[..3]);
                let rate = *exec.pick(&RATES);
                let filter = exec.pick(&fs).clone();
                compact(exec, &mut w, &fx, oracle, renew, rate, &filter)
            },
        ));
    }
    {
        let (ws, fs) = (writes(), filters());
        let seeds = if thorough { 4 } else { 1 };
        phases.push(Phase::new(
            "write-compact-write-compact",
            format!(
                "write, compact (3 rates x 2 filters), write, compact (3 rates x 3 filters, maybe back to the \
                 former key and label), all combinations over {} writes, by the same client or two, {seeds} seeds",
                ws.len()
            ),
            move |exec| {
                vary_seed(exec, seeds);
                let mut w = World::new(&["a", "b", "c"]);
                let fx = w.sys.client();
                // The one that compacts.
                let other = w.sys.client();
                let fx2 = if exec.flag() { &other } else { &fx };
                let rates = [0.0, 0.4, 1.0];
                for round in 0..2 {
                    let op = exec.pick(&ws).clone();
                    exec.say(|| op.show());
                    w.apply(exec, &fx, &op)?;
                    let renew = RENEWS[round + exec.choose(2 + round)];
                    let rate = *exec.pick(&rates);
                    let filter = exec.pick(&fs[..2 + round]).clone();
                    compact(exec, &mut w, fx2, oracle, renew, rate, &filter)?;
                }
                // The index stays usable.
                w.apply(exec, &fx, &ws[2])?;
                w.apply(exec, &fx, &ws[0])?;
                let all: Vec<Bytes> = w.universe.iter().cloned().collect();
                check_exact(exec, &fx, &w.cur(), &w.model, &all)
            },
        ));
    }
    {
        let depth = if thorough { 5 } else { 4 };
        phases.push(Phase::new(
            "compactions",
            format!("one index, then all sequences of {depth} compactions: 4 renewals (one goes back to the former key and label) x 4 rates"),
            move |exec| {
                let mut w = World::new(&["a", "b", "c"]);
                let fx = w.sys.client();
                let ws = writes();
                for op in [&ws[0], &ws[2], &ws[4], &ws[5]] {
                    w.apply(exec, &fx, op)?;
                }
                for _ in 0..depth {
                    let renew = *exec.pick(&RENEWS);
                    let rate = *exec.pick(&[0.0, 0.2, 0.6, 1.0]);
                    compact(exec, &mut w, &fx, oracle, renew, rate, &Filter::KeepAll)?;
                }
                Ok(())
            },
        ));
    }
    {
        let seeds = if thorough { 400 } else { 120 };
        phases.push(Phase::new(
            "draws",
            format!(
                "1..5 entries x 6 rates x {seeds} seeds of the random draws and hash orders x 3 filters \
                 (distinct_outcomes: sets of chains rewritten)"
            ),
            move |exec| {
                vary_seed(exec, seeds);
                let n = 1 + exec.choose(5);
                let rate = *exec.pick(&[0.05, 0.15, 0.3, 0.5, 0.7, 1.0]);
                let filter = exec
                    .pick(&[
                        Filter::KeepAll,
                        Filter::Drop([b"shared".to_vec()].into()),
                        Filter::KeepNone,
                    ])
                    .clone();
                let mut w = World::new(&["a", "b", "c", "d", "e"]);
                vary_order(exec, &w.sys);
                exec.say(|| format!("{n} entries"));
                let fx = w.sys.client();
                let kws: Vec<Bytes> = w.universe.iter().take(n).cloned().collect();
                for (i, k) in kws.iter().enumerate() {
                    w.add(
                        &fx,
                        &[
                            (k.clone(), d("shared")),
                            (k.clone(), d(&format!("own {i}"))),
                            (k.clone(), d(&format!("deleted {i}"))),
                            (k.clone(), Iv::P(kws[(i + 1) % n].clone())),
                        ],
                    )?;
                    w.del(&fx, &[(k.clone(), d(&format!("deleted {i}")))])?;
                }
                compact(exec, &mut w, &fx, oracle, Renew::Label, rate, &filter)
            },
        ));
    }
    {
        let top = if thorough { 1000 } else { 160 };
        phases.push(
            Phase::new(
                "sizes",
                format!("0..{top} entries at rates 1, 1.0001, 7, 1e300, infinity"),
                move |exec| {
                    let n = exec.choose(top);
                    let rate = *exec.pick(&[1.0, 1.0001, 7.0, 1e300, f64::INFINITY]);
                    exec.say(|| format!("{n} entries, rate {rate}"));
                    let mut w = World::new(&[]);
                    let fx = w.sys.client();
                    let mut assocs: Vec<Assoc> = Vec::new();
                    for i in 0..n {
                        let k = format!("keyword {i}").into_bytes();
                        w.universe.insert(k.clone());
                        assocs.push((k.clone(), d("everywhere")));
                        assocs.push((k.clone(), Iv::D(blob(i % 40, 1))));
                        if i % 3 == 0 {
                            assocs.push((k, p("keyword 0")));
                        }
                    }
                    w.add(&fx, &assocs)?;
                    w.del(
                        &fx,
                        &assocs.iter().filter(|x| x.1 == d("everywhere")).take(n / 2).cloned().collect::<Vec<_>>(),
                    )?;
                    let f = Filter::Drop([blob(3, 1)].into());
                    compact(exec, &mut w, &fx, oracle, Renew::Key, rate, &f)
                },
            )
            .cpu_limit(100),
        );
    }
    {
        let top = if thorough { 1 << 15 } else { 1 << 12 };
        let sizes = sizes(200, top);
        phases.push(
            Phase::new(
                "big",
                format!(
                    "{} sizes around the powers of two and ten up to {top}, and 2^16 + 1, of: {}; half \
                     deleted or not; 3 rates x 3 filters",
                    sizes.len(),
                    DIMENSIONS.join(", ")
                ),
                move |exec| {
                    let which = exec.choose(DIMENSIONS.len());
                    let n = match which {
                        // A path needs a round per keyword.
                        4 => *exec.pick(&sizes[..sizes.partition_point(|n| *n <= 520)]),
                        _ => *exec.pick(&sizes),
                    };
                    let how = exec.choose(2);
                    let all = dimension(which, n);
                    let (rate, filter) = match exec.choose(4) {
                        0 => (1.0, Filter::KeepAll),
                        1 => (1.0, Filter::KeepNone),
                        2 => (0.03, Filter::KeepNone),
                        _ => (
                            2.0,
                            Filter::Drop(
                                all.iter()
                                    .skip(n / 2)
                                    .filter_map(|(_, v)| match v {
                                        Iv::D(d) => Some(d.clone()),
                                        Iv::P(_) => None,
                                    })
                                    .collect(),
                            ),
                        ),
                    };
                    exec.say(|| format!("{n} {} how={how}", DIMENSIONS[which]));
                    let mut w = volume_world(&all);
                    let fx = w.sys.client();
                    w.add(&fx, &all)?;
                    if how == 1 {
                        w.del(&fx, &half(&all))?;
                    }
                    compact(exec, &mut w, &fx, oracle, Renew::Both, rate, &filter)
                },
            )
            .cpu_limit(200),
        );
    }
    {
        let top = if thorough { 90 } else { 40 };
        phases.push(Phase::new(
            "chain-lengths",
            format!(
                "one keyword with 0..{top} values of 6 lengths, none/half/all deleted then compacted at \
                 rate 1"
            ),
            move |exec| {
                let n = exec.choose(top);
                let len = *exec.pick(&[2usize, 14, 15, 16, 31, 79]);
                let del = exec.choose(4);
                let twice = exec.flag();
                exec.say(|| format!("{n} values of {len}, deleted {del}, added twice {twice}"));
                let mut w = World::new(&["a", "b"]);
                let fx = w.sys.client();
                let values: Vec<Assoc> = (0..n)
                    .map(|i| {
                        let mut b = blob(len, 1);
                        b[0] = i as u8;
                        (kw("a"), if i % 5 == 4 { Iv::P(b) } else { Iv::D(b) })
                    })
                    .collect();
                w.add(&fx, &values)?;
                w.add(&fx, &[a("b", d("other"))])?;
                if twice {
                    w.add(&fx, &values)?;
                }
                let gone = match del {
                    0 => &values[..0],
                    1 => &values[..n / 2],
                    2 => &values[..],
                    _ => &values[n - n.min(1)..],
                };
                w.del(&fx, gone)?;
                compact(exec, &mut w, &fx, oracle, Renew::Both, 1.0, &Filter::KeepAll)
            },
        ));
    }
    phases.push(Phase::new(
        "odd-rates",
        "negative, NaN, subnormal rates on 3 entries, 20 seeds",
        move |exec| {
            vary_seed(exec, 20);
            let rate = *exec.pick(&[-1.0, f64::NAN, f64::NEG_INFINITY, 1e-310, -0.0, 0.999_999]);
            let mut w = World::new(&["a", "b", "c"]);
            let fx = w.sys.client();
            let ws = writes();
            for op in [&ws[0], &ws[2], &ws[4]] {
                w.apply(exec, &fx, op)?;
            }
            compact(exec, &mut w, &fx, oracle, Renew::Label, rate, &Filter::KeepAll)
        },
    ));
    {
        let (ws, fs) = (writes(), filters());
        let depth = if thorough { 3 } else { 2 };
        phases.push(Phase::new(
            "batch:histories",
            format!(
                "batches of 2 entries: all histories of up to {depth} writes, then a compaction: {} \
                 rates x {} filters",
                RATES.len(),
                fs.len()
            ),
            move |exec| {
                let mut w = World::new(&["a", "b", "c"]);
                let fx = w.sys.client();
                let n = exec.choose(depth + 1);
                for _ in 0..n {
                    let op = exec.pick(&ws).clone();
                    exec.say(|| op.show());
                    w.apply(exec, &fx, &op)?;
                }
                let rate = *exec.pick(&RATES);
                let filter = exec.pick(&fs).clone();
                compact(exec, &mut w, &fx, oracle, Renew::Both, rate, &filter)
            },
        ));
    }
    {
        let top = if thorough { 14 } else { 9 };
        let seeds = if thorough { 60 } else { 24 };
        phases.push(Phase::new(
            "batch:sizes",
            format!(
                "batches of 2 entries: 0..{top} entries x 4 rates x {seeds} seeds x 3 filters, two \
                 compactions"
            ),
            move |exec| {
                vary_seed(exec, seeds);
                let n = exec.choose(top);
                let rate = *exec.pick(&[0.0, 0.2, 0.5, 1.0]);
                let filter = exec
                    .pick(&[
                        Filter::KeepAll,
                        Filter::Drop([b"shared".to_vec()].into()),
                        Filter::Drop([b"own 0".to_vec(), b"own 3".to_vec()].into()),
                    ])
                    .clone();
                exec.say(|| format!("{n} entries"));
                let mut w = World::new(&[]);
                let fx = w.sys.client();
                let kws: Vec<Bytes> = (0..n).map(|i| format!("k{i:02}").into_bytes()).collect();
                w.universe.extend(kws.iter().cloned());
                let mut assocs = Vec::new();
                for (i, k) in kws.iter().enumerate() {
                    assocs.push((k.clone(), d(&format!("own {i}"))));
                    if i % 2 == 0 {
                        assocs.push((k.clone(), d("shared")));
                        assocs.push((k.clone(), Iv::P(kws[(i + 1) % n].clone())));
                    }
                }
                w.add(&fx, &assocs)?;
                if n > 0 {
                    w.del(&fx, &[(kws[n - 1].clone(), d(&format!("own {}", n - 1)))])?;
                }
                compact(exec, &mut w, &fx, oracle, Renew::Label, rate, &filter)?;
                compact(exec, &mut w, &fx, oracle, Renew::Key, rate, &Filter::KeepAll)
            },
        ));
    }
    {
        let ns = sizes_to(if thorough { 4096 } else { 1024 });
        phases.push(Phase::new(
            "batch:big",
            format!(
                "batches of 2 entries: {} sizes around the powers of two and ten up to {} x rates 0, 0.5 and 1 x keep all or \
                 drop one",
                ns.len(),
                ns.last().copied().unwrap_or(0)
            ),
            move |exec| {
                let n = *exec.pick(&ns);
                let rate = *exec.pick(&[0.0, 0.5, 1.0]);
                let filter = exec.pick(&[Filter::KeepAll, Filter::Drop([b"own 1".to_vec()].into())]).clone();
                exec.say(|| format!("{n} entries"));
                let mut w = World::new(&[]);
                let fx = w.sys.client();
                let assocs = (0..n)
                    .map(|i| (format!("k{i:05}").into_bytes(), d(&format!("own {i}"))))
                    .collect::<Vec<_>>();
                w.universe.extend(assocs.iter().map(|(k, _)| k.clone()));
                w.add(&fx, &assocs)?;
                compact(exec, &mut w, &fx, oracle, Renew::Label, rate, &filter)
            },
        ));
    }
    phases
}

pub fn c05(thorough: bool) -> Check {
    Check {
        id: "C05",
        level: "model_checking",
        rule: "every history, renewal, rate, filter and seed of the draws inside the bounds; after the \
               compaction every keyword is read under the new credentials and compared with the \
               reference model, the filter's arguments are compared with the live data of the chains \
               rewritten, every former credential is searched",
        assumptions: vec![
            "a batch of 2 entries behaves as one of 1 000 000 (cfg findex_verif_small_batch)",
            "a chain is considered compacted when its seed changed or it disappeared (independent \
             decoder)",
        ],
        phases: phases(thorough, content),
    }
}

/// Repeated partial compactions end up rewriting every chain. With these numbers of draws, one chain is left aside by all
/// of them with a probability below 10^-12.
fn reach(exec: &mut Exec, ns: &[usize]) -> Result<(), String> {
    let n = *exec.pick(ns);
    let renew = *exec.pick(&[Renew::Label, Renew::Both]);
    // Fewer draws than entries.
    let rate = exec.pick(&[0.9, 0.6]) / ((n as f64).log2() + 0.5772);
    exec.say(|| format!("{n} entries, renewing {renew:?}, rate {rate}"));
    let mut w = World::new(&[]);
    let fx = w.sys.client();
    let assocs = (0..n)
        .map(|i| (format!("k{i:05}").into_bytes(), d(&format!("own {i}"))))
        .collect::<Vec<_>>();
    w.universe.extend(assocs.iter().map(|(k, _)| k.clone()));
    w.add(&fx, &assocs)?;
    let mut left = w.universe.clone();
    let mut times = 0;
    while !left.is_empty() {
        if times == 80 {
            return Err(format!(
                "{} of the {n} chains, among which that of {}, are never compacted",
                left.len(),
                show(left.first().expect("not empty"))
            ));
        }
        for k in w.compact(&fx, renew, rate, &Filter::KeepAll)?.rewritten {
            left.remove(&k);
        }
        let last = w.creds.split_off(w.creds.len() - 1);
        w.creds = last;
        times += 1;
        exec.transitions += 1;
    }
    exec.validated += 1;
    exec.outcome(times);
    exec.state(w.digest());
    Ok(())
}

pub fn c06(thorough: bool) -> Check {
    let mut phases = phases(thorough, storage);
    for name in ["batch:reach", "reach"] {
        let mut ns = (2..20).collect::<Vec<_>>();
        ns.extend(sizes_to(if thorough { 4096 } else { 1024 }).into_iter().filter(|n| *n >= 20));
        phases.push(Phase::new(
            name,
            format!(
                "{}2..19 entries and {} sizes up to {}, compacted at rates of about 0.9 and 0.6 draws per entry until each chain was rewritten once",
                if name == "reach" { "" } else { "batches of 2 entries: " },
                ns.len() - 18,
                ns.last().copied().unwrap_or(0)
            ),
            move |exec| reach(exec, &ns),
        ));
    }
    Check {
        id: "C06",
        level: "model_checking",
        rule: "every history, renewal, rate, filter and seed of the draws inside the bounds; the rows \
               stored before and after are compared and decoded independently",
        assumptions: vec![
            "a batch of 2 entries behaves as one of 1 000 000 (cfg findex_verif_small_batch)",
            "a chain is considered compacted when its seed changed or it disappeared (independent \
             decoder)",
        ],
        phases,
    }
}
