//! C04: the interruption callback sees each round and stops the search exactly there.
use std::{
    cell::RefCell,
    collections::BTreeSet,
    rc::Rc,
};

use cosmian_findex::Error;

use super::{
    c03::{graph, node},
    common::{sizes, vary_seed, World},
    Check,
};
use crate::{
    explore::{Exec, Phase},
    model::{data_of, reachable, show_ivs, show_set, Assoc, Iv, Live},
    ops::{self, Cb, CB_ERROR},
    sim::{go, Bytes, Fx, Kind, ET},
};

/// Keywords at distance at most `r` of the request.
fn ball(live: &Live, request: &[Bytes], r: usize) -> BTreeSet<Bytes> {
    let mut seen: BTreeSet<Bytes> = request.iter().cloned().collect();
    let mut frontier = seen.clone();
    for _ in 0..r {
        let mut next = BTreeSet::new();
        for k in frontier {
            for iv in live.get(&k).into_iter().flatten() {
                if let Iv::P(p) = iv {
                    if seen.insert(p.clone()) {
                        next.insert(p.clone());
                    }
                }
            }
        }
        frontier = next;
    }
    seen
}

fn go_on(
    exec: &mut Exec,
    w: &World,
    fx: &Fx,
    request: &[Bytes],
    at: usize,
    what: Cb,
) -> Result<usize, String> {
    let rounds = Rc::new(RefCell::new(Vec::<Live>::new()));
    let requests_at_callback = Rc::new(RefCell::new(Vec::new()));
    let ctl = w.sys.ctl.clone();
    let rac = requests_at_callback.clone();
    ctl.arm(&[]);
    ctl.take_trace();
    let res = go(ops::search_rounds(fx, &w.cur(), request, &rounds, |i| {
        rac.borrow_mut().push(ctl.reqno.get());
        if i == at {
            what
        } else {
            Cb::Continue
        }
    }));
    let total = w.sys.ctl.reqno.get();
    exec.validated += 1;
    exec.transitions += total as u64;
    // The callback is called after the last round, whatever it read.
    let last = w.sys.ctl.take_trace().iter().rposition(|r| r.table == ET && r.kind == Kind::Fetch);
    if let Some(last) = last {
        if requests_at_callback.borrow().last().map_or(true, |n| *n <= last) {
            return Err("the callback was not called after the last round of the search".to_string());
        }
    }
    let rounds = rounds.borrow();
    let live = &w.model.live;
    let has = |k: &Bytes| live.get(k).map_or(false, |s| !s.is_empty());
    let reachable_from: BTreeSet<Bytes> = request.iter().flat_map(|k| w.model.reachable(k)).collect();
    // Each round reports true associations, complete for each keyword it reports.
    let mut known = Live::new();
    for (i, r) in rounds.iter().enumerate() {
        for (k, s) in r {
            let want = w.model.of(k);
            if *s != want {
                return Err(format!(
                    "round {i} reported {} for {} instead of {}",
                    show_ivs(s),
                    crate::model::show(k),
                    show_ivs(&want)
                ));
            }
            if !w.universe.contains(k) {
                return Err(format!("round {i} reported a keyword never indexed"));
            }
            known.insert(k.clone(), s.clone());
        }
        for k in ball(live, request, i) {
            if has(&k) && !known.contains_key(&k) {
                return Err(format!(
                    "{} is {i} hops away but was not reported by round {i}",
                    crate::model::show(&k)
                ));
            }
        }
        // Only keywords reachable from the request are read.
        for k in r.keys() {
            if !reachable_from.contains(k) {
                return Err(format!("round {i} reported an unreachable keyword"));
            }
        }
    }
    if rounds.len() <= at || what == Cb::Continue {
        let found = res.map_err(|e| format!("search failed: {e}"))?;
        super::common::compare(&w.model, request, &found)?;
        let all: BTreeSet<Bytes> = request.iter().flat_map(|k| w.model.reachable(k)).collect();
        for k in all {
            if has(&k) && !known.contains_key(&k) {
                return Err(format!("{} was never reported", crate::model::show(&k)));
            }
        }
    } else {
        if rounds.len() != at + 1 {
            return Err(format!("{} callbacks after asking to stop at {at}", rounds.len()));
        }
        if requests_at_callback.borrow()[at] != total {
            return Err("storage requests are made after the callback asked to stop".to_string());
        }
        match what {
            Cb::Stop => {
                let found = res.map_err(|e| format!("an interrupted search failed: {e}"))?;
                let wanted: BTreeSet<_> = request.iter().cloned().collect();
                if found.keys().cloned().collect::<BTreeSet<_>>() != wanted {
                    return Err("an interrupted search does not answer for what was requested".into());
                }
                for k in request {
                    // Data reachable inside what was read.
                    let want = data_of(&known, &reachable(&known, k));
                    if found[k] != want {
                        return Err(format!(
                            "interrupted at round {at}: {} found instead of {}",
                            show_set(&found[k]),
                            show_set(&want)
                        ));
                    }
                }
            }
            _ => match res {
                Err(Error::Interrupt(e)) if e == CB_ERROR => (),
                Err(Error::Interrupt(e)) => return Err(format!("callback error reported as {e}")),
                Err(e) => return Err(format!("callback error reported as {e:?}")),
                Ok(_) => return Err("the search succeeded although its callback failed".into()),
            },
        }
    }
    exec.outcome(crate::codec::hash64(&format!("{:?}", rounds.iter().map(|r| r.len()).collect::<Vec<_>>())));
    Ok(rounds.len())
}

fn explore(exec: &mut Exec, w: &World, fx: &Fx, requests: &[Vec<Bytes>]) -> Result<(), String> {
    for r in requests {
        let n = go_on(exec, w, fx, r, usize::MAX, Cb::Continue)?;
        for at in 0..=n {
            go_on(exec, w, fx, r, at, Cb::Stop)?;
            go_on(exec, w, fx, r, at, Cb::Fail)?;
        }
        // The same search still works afterwards.
        go_on(exec, w, fx, r, usize::MAX, Cb::Continue)?;
    }
    Ok(())
}

fn world(assocs: &[Assoc], n: usize) -> Result<(World, Fx), String> {
    let mut w = World::new(&[]);
    w.universe.extend((0..n).map(node));
    let fx = w.sys.client();
    w.add(&fx, assocs)?;
    Ok((w, fx))
}

fn requests(n: usize) -> Vec<Vec<Bytes>> {
    (1..1usize << n)
        .map(|m| (0..n).filter(|i| m >> i & 1 == 1).map(node).collect())
        .collect()
}

pub fn check(thorough: bool) -> Check {
    let mut phases = Vec::new();
    phases.push(Phase::new(
        "graphs-3",
        if thorough {
            "all graphs of 3 keywords and one never indexed x all data sets x all requests x all \
             rounds to stop or fail at"
        } else {
            "all graphs of 3 keywords and one never indexed, all or none holding data, x all requests \
             x all rounds to stop or fail at"
        },
        move |exec| {
            let edges = exec.choose(4096);
            let mask = if thorough { exec.choose(8) } else { 7 * exec.choose(2) };
            exec.say(|| format!("edges {edges:012b} data {mask:03b}"));
            let (w, fx) = world(&graph(3, 4, edges, mask), 4)?;
            exec.state(edges as u64 * 8 + mask as u64);
            explore(exec, &w, &fx, &requests(4))
        },
    ));
    phases.push(Phase::new(
        "graphs-4",
        "all graphs of 4 keywords whose edges are a subset of a path, a back edge and chords, all \
         requests, all rounds",
        move |exec| {
            // Edges among: 0->1 1->2 2->3 3->0 0->2 1->3 2->0 3->3 1->0 0->0
            let e = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 3), (2, 0), (3, 3), (1, 0), (0, 0)];
            let m = exec.choose(1 << e.len());
            exec.say(|| format!("edges {m:010b}"));
            let mut bits = 0;
            for (b, (i, j)) in e.iter().enumerate() {
                if m >> b & 1 == 1 {
                    bits |= 1 << (i * 4 + j);
                }
            }
            let (w, fx) = world(&graph(4, 4, bits, 15), 4)?;
            exec.state(bits as u64);
            explore(exec, &w, &fx, &requests(4))
        },
    ));
    phases.push(Phase::new(
        "after-deletions",
        "all graphs of 2 keywords and one never indexed, all sets of deleted edges and data, all \
         requests, all rounds, seeds of the iteration orders",
        move |exec| {
            vary_seed(exec, if thorough { 8 } else { 2 });
            let edges = exec.choose(64);
            let deleted = exec.choose(64);
            let dd = exec.choose(4);
            exec.say(|| format!("edges {edges:06b} deleting {deleted:06b} data {dd:02b}"));
            let (mut w, fx) = world(&graph(2, 3, edges, 3), 3)?;
            w.del(&fx, &graph(2, 3, deleted, dd))?;
            exec.state(w.digest());
            explore(exec, &w, &fx, &requests(3))
        },
    ));
    phases.push(Phase::new(
        "paths",
        "paths and rings of 1..20 keywords, every round",
        move |exec| {
            let n = 1 + exec.choose(20);
            let ring = exec.flag();
            exec.say(|| format!("{n} keywords, ring {ring}"));
            let assocs = (0..n)
                .flat_map(|i| {
                    let j = if ring { (i + 1) % n } else { i + 1 };
                    [(node(i), super::c03::data(i)), (node(i), Iv::P(node(j)))]
                })
                .collect::<Vec<_>>();
            let (w, fx) = world(&assocs, n + 1)?;
            exec.state((n * 2 + usize::from(ring)) as u64);
            explore(exec, &w, &fx, &[vec![node(0)], vec![node(0), node(n / 2)]])
        },
    ));
    {
        let sizes = sizes(31, if thorough { 1 << 14 } else { 1 << 11 });
        let sizes = sizes[..sizes.len() - usize::from(!thorough)].to_vec();
        phases.push(
            Phase::new(
                "wide",
                format!(
                    "a keyword pointing to n ones, each pointing to another: {} sizes n up to {}, every \
                     round; n keywords requested at once",
                    sizes.len(),
                    sizes[sizes.len() - 1]
                ),
                move |exec| {
                    let n = *exec.pick(&sizes);
                    let shape = exec.choose(3);
                    exec.say(|| format!("{n} pointers, shape {shape}"));
                    let mut assocs = vec![];
                    for i in 1..=n {
                        assocs.push((node(0), Iv::P(node(i))));
                        if i % 3 != 0 {
                            assocs.push((node(i), super::c03::data(i)));
                        }
                        if shape == 1 {
                            assocs.push((node(i), Iv::P(node(n + i))));
                            assocs.push((node(n + i), super::c03::data(n + i)));
                        }
                    }
                    let (w, fx) = world(&assocs, 2 * n + 1)?;
                    exec.state((n * 4 + shape) as u64);
                    let request = match shape {
                        2 => (1..=n).map(node).collect(),
                        _ => vec![node(0)],
                    };
                    explore(exec, &w, &fx, &[request])
                },
            )
            .cpu_limit(200),
        );
    }
    phases.push(
        Phase::new(
            "long-paths",
            "paths of 50 to 1000 keywords with data at every third one; all powers of two and of ten, \
             one less, one more as the round to stop or fail at",
            move |exec| {
                let n = *exec.pick(&[50usize, 130, 260, 520, 1000]);
                let at = *exec.pick(&sizes(0, 1000));
                let what = *exec.pick(&[Cb::Stop, Cb::Fail]);
                exec.say(|| format!("{n} keywords, {what:?} at {at}"));
                let assocs = (0..n)
                    .flat_map(|i| {
                        [(node(i), Iv::P(node(i + 1)))]
                            .into_iter()
                            .chain((i % 3 == 1).then(|| (node(i), super::c03::data(i))))
                    })
                    .collect::<Vec<_>>();
                let (w, fx) = world(&assocs, n + 1)?;
                exec.state((n * 4096 + at) as u64);
                go_on(exec, &w, &fx, &[node(0)], at, what)?;
                Ok(())
            },
        )
        .stack(8 << 20),
    );
    Check {
        id: "C04",
        level: "model_checking",
        rule: "every graph, request set, round and decision of the callback (continue, stop, fail); the \
               arguments of every call and the final answer are compared with the reference graph",
        assumptions: vec![
            "a keyword whose associations were all deleted may be reported with an empty set or not at \
             all",
        ],
        phases,
    }
}
