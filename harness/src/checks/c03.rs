//! C03: a search resolves any pointer graph exactly and terminates.
use super::{
    common::{check_exact, compare, sizes, vary_order, vary_seed, World},
    Check,
};
use crate::{
    explore::{Exec, Phase},
    model::{Assoc, Iv},
    ops,
    sim::{go, Bytes, Fx, Kind, Sys, ET},
};

pub fn node(i: usize) -> Bytes {
    format!("node {i}").into_bytes()
}

pub fn data(i: usize) -> Iv {
    Iv::D(format!("data of {i}").into_bytes())
}

/// Associations of a graph: bit `i * width + j` is the edge from i to j (j >= n: dangling).
pub fn graph(n: usize, width: usize, edges: usize, data_mask: usize) -> Vec<Assoc> {
    let mut res = Vec::new();
    for i in 0..n {
        for j in 0..width {
            if edges >> (i * width + j) & 1 == 1 {
                res.push((node(i), Iv::P(node(j))));
            }
        }
        if data_mask >> i & 1 == 1 {
            res.push((node(i), data(i)));
        }
    }
    res
}

/// Searches and checks the answer and the number of rounds.
pub fn search(
    exec: &mut Exec,
    sys: &Sys,
    fx: &Fx,
    w: &World,
    request: &[Bytes],
) -> Result<(), String> {
    sys.ctl.take_trace();
    let found = go(ops::search(fx, &w.cur(), request)).map_err(|e| format!("search failed: {e}"))?;
    exec.validated += 1;
    exec.transitions += 1;
    compare(&w.model, request, &found)?;
    let rounds = sys
        .ctl
        .take_trace()
        .iter()
        .filter(|r| r.table == ET && r.kind == Kind::Fetch)
        .count();
    let reachable = request
        .iter()
        .flat_map(|k| w.model.reachable(k))
        .collect::<std::collections::BTreeSet<_>>()
        .len();
    if rounds > reachable + 1 {
        return Err(format!("{rounds} rounds for {reachable} reachable keywords"));
    }
    Ok(())
}

fn requests(n: usize) -> Vec<Vec<Bytes>> {
    (1..1usize << n)
        .map(|m| (0..n).filter(|i| m >> i & 1 == 1).map(node).collect())
        .collect()
}

fn world(assocs: &[Assoc]) -> Result<(World, Fx), String> {
    let mut w = World::new(&[]);
    w.universe.extend((0..8).map(node));
    let fx = w.sys.client();
    w.add(&fx, assocs)?;
    Ok((w, fx))
}

fn shape(which: usize, n: usize) -> Vec<Assoc> {
    let mut res: Vec<Assoc> = Vec::new();
    let edge = |res: &mut Vec<Assoc>, i: usize, j: usize| res.push((node(i), Iv::P(node(j))));
    for i in 0..n {
        res.push((node(i), data(i)));
        match which {
            // Path, ring, ring with chords, star, inverse star, complete, binary tree, ladder.
            0 => edge(&mut res, i, i + 1),
            1 => edge(&mut res, i, (i + 1) % n),
            2 => {
                edge(&mut res, i, (i + 1) % n);
                edge(&mut res, i, (i * 7 + 3) % n);
            }
            3 => edge(&mut res, 0, i),
            4 => edge(&mut res, i, 0),
            5 => {
                for j in 0..n.min(24) {
                    edge(&mut res, i, j);
                }
            }
            6 => {
                edge(&mut res, i, 2 * i + 1);
                edge(&mut res, i, 2 * i + 2);
            }
            _ => {
                edge(&mut res, i, i + 1);
                edge(&mut res, i, i + 2);
                if i > 0 {
                    edge(&mut res, i, i - 1);
                }
            }
        }
    }
    res
}

pub fn check(thorough: bool) -> Check {
    let mut phases = Vec::new();
    phases.push(Phase::new(
        "graphs-3",
        "all graphs of 3 keywords (loops allowed) and a keyword never indexed x all sets of keywords \
         holding data x all sets requested",
        move |exec| {
            let edges = exec.choose(4096);
            let mask = exec.choose(8);
            exec.say(|| format!("edges {edges:012b} data {mask:03b}"));
            let (w, fx) = world(&graph(3, 4, edges, mask))?;
            for r in requests(4) {
                search(exec, &w.sys, &fx, &w, &r)?;
            }
            exec.state(edges as u64 * 8 + mask as u64);
            Ok(())
        },
    ));
    phases.push(Phase::new(
        "graphs-4",
        if thorough {
            "all graphs of 4 keywords x all sets of keywords holding data x all sets requested"
        } else {
            "all graphs of 4 keywords, all holding data, x all sets requested"
        },
        move |exec| {
            let edges = exec.choose(65536);
            let mask = if thorough { exec.choose(16) } else { 15 };
            exec.say(|| format!("edges {edges:016b} data {mask:04b}"));
            let (w, fx) = world(&graph(4, 4, edges, mask))?;
            for r in requests(4) {
                search(exec, &w.sys, &fx, &w, &r)?;
            }
            exec.state(edges as u64 * 16 + mask as u64);
            Ok(())
        },
    ));
    phases.push(Phase::new(
        "orders",
        "all graphs of 3 keywords x 8 seeds of the iteration orders x orders of the rows fetched",
        move |exec| {
            vary_seed(exec, if thorough { 32 } else { 8 });
            let edges = exec.choose(512);
            let sys_order = exec.choose(3);
            exec.say(|| format!("edges {edges:09b}"));
            let (w, fx) = world(&graph(3, 3, edges, 7))?;
            w.sys.ctl.fetch_order.set(sys_order as u8);
            for r in requests(3) {
                search(exec, &w.sys, &fx, &w, &r)?;
                check_exact(exec, &fx, &w.cur(), &w.model, &r)?;
            }
            exec.state(edges as u64);
            Ok(())
        },
    ));
    phases.push(Phase::new(
        "edge-histories",
        "all graphs of 3 keywords, then one edge deleted or added (all of them), then all searches",
        move |exec| {
            let edges = exec.choose(512);
            let (i, j) = (exec.choose(3), exec.choose(3));
            let (mut w, fx) = world(&graph(3, 3, edges, 7))?;
            let e = [(node(i), Iv::P(node(j)))];
            exec.say(|| format!("edges {edges:09b} flipping {i}->{j}"));
            if edges >> (i * 3 + j) & 1 == 1 {
                w.del(&fx, &e)?;
            } else {
                w.add(&fx, &e)?;
            }
            for r in requests(3) {
                search(exec, &w.sys, &fx, &w, &r)?;
            }
            exec.state((edges ^ (1 << (i * 3 + j))) as u64);
            Ok(())
        },
    ));
    {
        let top = if thorough { 130 } else { 60 };
        phases.push(
            Phase::new(
                "shapes",
                format!(
                    "paths, rings, rings with chords, stars, complete graphs, trees and ladders of \
                     1..{top} keywords, searched from the first, middle, last, two and all keywords"
                ),
                move |exec| {
                    let which = exec.choose(8);
                    let n = 1 + exec.choose(top);
                    exec.say(|| format!("shape {which} of {n}"));
                    let (w, fx) = world(&shape(which, n))?;
                    for r in [
                        vec![node(0)],
                        vec![node(n / 2)],
                        vec![node(n - 1)],
                        vec![node(0), node(n / 2)],
                        (0..n).map(node).collect(),
                    ] {
                        search(exec, &w.sys, &fx, &w, &r)?;
                    }
                    exec.state((which * 1000 + n) as u64);
                    Ok(())
                },
            )
            .stack(8 << 20),
        );
    }
    phases.push(
        Phase::new(
            "deep",
            "paths and rings of 500 to 40 000 keywords, with the 8 MiB stack of a main thread",
            move |exec| {
                let which = exec.choose(2);
                let n = *exec.pick(&[500usize, 2000, 10_000, 40_000]);
                exec.say(|| format!("shape {which} of {n}"));
                let (w, fx) = world(&shape(which, n))?;
                let found = w.search(&fx, &[node(0)])?;
                if found[&node(0)] != w.model.search(&node(0)) {
                    return Err(format!(
                        "{} data found instead of {n}",
                        found[&node(0)].len()
                    ));
                }
                exec.validated += 1;
                exec.transitions += 1;
                exec.state((which * 10000 + n) as u64);
                Ok(())
            },
        )
        .stack(8 << 20)
        .cpu_limit(200),
    );
    {
        let top = if thorough { 1 << 17 } else { 1 << 13 };
        let sizes = sizes(63, top);
        phases.push(
            Phase::new(
                "wide",
                format!(
                    "{} sizes around the powers of two and ten up to {top}, and 2^16: pointers of one keyword, \
                     of 2 keywords sharing half of them, layers of a hub, requested keywords of a ring",
                    sizes.len()
                ),
                move |exec| {
                    let which = exec.choose(4);
                    let n = match which {
                        // The answer is quadratic.
                        3 => *exec.pick(&sizes[..sizes.partition_point(|n| *n <= 513)]),
                        _ => *exec.pick(&sizes),
                    };
                    exec.say(|| format!("wide {which} of {n}"));
                    let (a, b, hub) = (b"root a".to_vec(), b"root b".to_vec(), b"hub".to_vec());
                    let data = |i: usize| (node(i), Iv::D(format!("d{i}").into_bytes()));
                    let mut g = Vec::new();
                    for i in 0..n {
                        g.push(data(i));
                        match which {
                            0 => g.push((a.clone(), Iv::P(node(i)))),
                            1 => {
                                if i % 4 != 0 {
                                    g.push((a.clone(), Iv::P(node(i))));
                                }
                                if i % 4 != 1 {
                                    g.push((b.clone(), Iv::P(node(i))));
                                }
                            }
                            2 => {
                                g.push((a.clone(), Iv::P(node(i))));
                                g.push((node(i), Iv::P(hub.clone())));
                                g.push((hub.clone(), Iv::P(node(i + n))));
                                g.push(data(i + n));
                            }
                            _ => g.push((node(i), Iv::P(node((i + 1) % n)))),
                        }
                    }
                    let (w, fx) = world(&g)?;
                    let requests = match which {
                        // Everything is read in one round, and the ring only once.
                        3 => vec![(0..n).map(node).collect::<Vec<_>>()],
                        _ => vec![vec![a.clone()], vec![b.clone(), a]],
                    };
                    for r in requests {
                        if which == 3 {
                            let found = w.search(&fx, &r)?;
                            let want = w.model.search(&r[0]);
                            if found.len() != n || found.values().any(|v| *v != want) {
                                return Err("a keyword of the ring does not find all the data".into());
                            }
                            exec.validated += 1;
                            continue;
                        }
                        search(exec, &w.sys, &fx, &w, &r)?;
                    }
                    exec.state((which * 100_000 + n) as u64);
                    Ok(())
                },
            )
            .stack(8 << 20)
            .cpu_limit(200),
        );
    }
    phases.push(Phase::new(
        "two-writers-pointers",
        "all pairs of graphs of 2 keywords indexed by two calls, in both storage orders",
        move |exec| {
            let (e1, e2) = (exec.choose(64), exec.choose(64));
            exec.say(|| format!("edges {e1:06b} then {e2:06b}"));
            let (mut w, fx) = world(&graph(2, 3, e1, 3))?;
            vary_order(exec, &w.sys);
            w.add(&fx, &graph(2, 3, e2, 0))?;
            for r in requests(3) {
                search(exec, &w.sys, &fx, &w, &r)?;
            }
            exec.state((e1 | e2) as u64);
            Ok(())
        },
    ));
    Check {
        id: "C03",
        level: "model_checking",
        rule: "every graph inside the bounds is indexed and every set of keywords searched; the answer \
               is compared with a reference reachability, the entry-table fetches are counted",
        assumptions: vec!["graphs larger than the bounds behave as those inside"],
        phases,
    }
}
