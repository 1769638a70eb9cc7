//! C01: a search returns exactly the live associations after any history.
use super::{
    common::{
        dimension, dimension_keywords, half, marathon, sizes, vary_order, vary_seed, volume_world, Filter, Op,
        Renew, World, DIMENSIONS,
    },
    Check,
};
use crate::{
    explore::{Exec, Phase},
    model::{a, d, kw, p, Iv},
    sim::Bytes,
};

fn long() -> Iv {
    Iv::D(b"a value of forty bytes, i.e. three block".to_vec())
}

pub fn alphabet() -> Vec<Op> {
    let many = (0..7)
        .map(|i| a("a", d(&format!("many-{i}"))))
        .collect::<Vec<_>>();
    vec![
        Op::Add(vec![a("a", d("1"))]),
        Op::Del(vec![a("a", d("1"))]),
        Op::Add(vec![a("b", d("1"))]),
        Op::Del(vec![a("b", d("1"))]),
        Op::Add(vec![a("a", p("b"))]),
        Op::Del(vec![a("a", p("b"))]),
        Op::Add(vec![a("b", p("a"))]),
        Op::Add(vec![a("a", d("1")), a("b", d("1")), a("a", long()), a("b", p("c"))]),
        Op::Del(vec![a("a", d("1")), a("b", d("1")), a("c", d("2"))]),
        Op::Add(vec![a("c", d("2")), a("b", long())]),
        Op::Add(many.clone()),
        Op::Del(many[2..].to_vec()),
        Op::Del(vec![a("a", long()), a("b", p("c"))]),
        Op::Add(vec![]),
        Op::Search(vec![kw("a"), kw("b"), kw("c"), kw("nothing")]),
        Op::Compact(Renew::Label, 1.0, Filter::KeepAll),
        Op::Compact(Renew::Key, 0.35, Filter::KeepAll),
        Op::Compact(Renew::Both, 0.0, Filter::KeepAll),
        Op::Compact(Renew::Label, 1.0, Filter::Drop([b"1".to_vec()].into())),
        Op::Compact(Renew::Back, 1.0, Filter::KeepAll),
    ]
}

fn finish(exec: &mut Exec, w: &World, fx: &crate::sim::Fx) -> Result<(), String> {
    let all = [kw("a"), kw("b"), kw("c"), kw("nothing")];
    for req in [&all[0..1], &all[1..2], &all[2..4], &all[..]] {
        w.check_search(exec, fx, req)?;
    }
    let h = w.digest();
    exec.state(h);
    exec.outcome(crate::codec::hash64(&format!("{:?}", w.model.live)));
    Ok(())
}

fn history(exec: &mut Exec, ops: &[Op], depth: usize, clients: usize) -> Result<(), String> {
    let mut w = World::new(&["a", "b", "c"]);
    let fxs = (0..clients).map(|_| w.sys.client()).collect::<Vec<_>>();
    for _ in 0..depth {
        let op = exec.pick(ops).clone();
        let c = if clients > 1 { exec.choose(clients) } else { 0 };
        exec.say(|| format!("client {c}: {}", op.show()));
        w.apply(exec, &fxs[c], &op)?;
    }
    finish(exec, &w, &fxs[0])?;
    // A client that never saw the index finds the same thing.
    let fresh = w.sys.client();
    let all: Vec<Bytes> = vec![kw("a"), kw("b"), kw("c")];
    w.check_search(exec, &fresh, &all)
}

pub fn check(thorough: bool) -> Check {
    let mut phases = Vec::new();
    let top = if thorough { 5 } else { 4 };
    for depth in 0..=top {
        let ops = alphabet();
        phases.push(Phase::new(
            &format!("histories-{depth}"),
            format!("all histories of {depth} calls over {} calls, one client", ops.len()),
            move |exec| history(exec, &ops, depth, 1),
        ));
    }
    for depth in 1..=if thorough { 4 } else { 3 } {
        let ops = alphabet();
        phases.push(Phase::new(
            &format!("two-clients-{depth}"),
            format!(
                "all histories of {depth} calls over {} calls, each by one of two long-lived \
                 clients",
                ops.len()
            ),
            move |exec| history(exec, &ops, depth, 2),
        ));
    }
    {
        let ops = alphabet();
        let depth = if thorough { 3 } else { 2 };
        let seeds = if thorough { 16 } else { 8 };
        phases.push(Phase::new(
            "orders",
            format!(
                "all histories of {depth} calls x {seeds} seeds of the hash iteration orders x \
                 native/sorted/reversed order of the rows fetched"
            ),
            move |exec| {
                vary_seed(exec, seeds);
                let mut w = World::new(&["a", "b", "c"]);
                vary_order(exec, &w.sys);
                let fx = w.sys.client();
                for _ in 0..depth {
                    let op = exec.pick(&ops).clone();
                    exec.say(|| op.show());
                    w.apply(exec, &fx, &op)?;
                }
                finish(exec, &w, &fx)
            },
        ));
    }
    {
        let ops = vec![
            Op::Add(vec![a("a", d("x"))]),
            Op::Del(vec![a("a", d("x"))]),
            Op::Add(vec![a("a", d("y"))]),
            Op::Del(vec![a("a", d("y")), a("a", d("x"))]),
            Op::Compact(Renew::Label, 1.0, Filter::KeepAll),
            Op::Compact(Renew::Label, 0.0, Filter::KeepAll),
            Op::Compact(Renew::Back, 1.0, Filter::KeepAll),
        ];
        let depth = if thorough { 8 } else { 6 };
        phases.push(Phase::new(
            "one-keyword",
            format!("all histories of {depth} calls over {} calls on one keyword", ops.len()),
            move |exec| history(exec, &ops, depth, 1),
        ));
    }
    {
        let ops = alphabet();
        let (order, seeds) = (3, if thorough { 8 } else { 1 });
        phases.push(Phase::new(
            "marathon",
            format!(
                "histories of {} calls in which every sequence of {order} out of {} calls occurs (8 renumberings, {seeds} seeds), \
                 by one client or by 3 in turn, searched after each call",
                ops.len().pow(order as u32) + order - 1,
                ops.len()
            ),
            move |exec| {
                vary_seed(exec, seeds);
                let clients = if exec.flag() { 3 } else { 1 };
                let all = [kw("a"), kw("b"), kw("c"), kw("nothing")];
                let w = marathon(exec, &ops, order, clients, |exec, w, fx, op| {
                    w.apply(exec, fx, op)?;
                    w.check_search(exec, fx, &all)
                })?;
                let fx = w.sys.client();
                finish(exec, &w, &fx)
            },
        ));
    }
    {
        // Long chains: n values, in one call or one by one, then deletion of a prefix/suffix.
        let top = if thorough { 160 } else { 40 };
        phases.push(Phase::new(
            "long-chains",
            format!(
                "0..{top} values added in one call / one by one / twice, deleted \
                 none/all/half/first/last, compaction or not in between"
            ),
            move |exec| {
                let n = exec.choose(top);
                let how = exec.choose(3);
                let which = exec.choose(5);
                let compact = exec.choose(3);
                exec.say(|| format!("n={n} how={how} which={which} compact={compact}"));
                let values = (0..n)
                    .map(|i| a("a", d(&format!("value number {i} {}", "z".repeat(i % 19)))))
                    .collect::<Vec<_>>();
                let mut w = World::new(&["a"]);
                let fx = w.sys.client();
                match how {
                    0 => {
                        w.add(&fx, &values)?;
                    }
                    1 => {
                        for v in &values {
                            w.add(&fx, std::slice::from_ref(v))?;
                        }
                    }
                    _ => {
                        w.add(&fx, &values)?;
                        w.add(&fx, &values)?;
                    }
                }
                exec.transitions += 2;
                if compact == 1 {
                    w.compact(&fx, Renew::Label, 1.0, &Filter::KeepAll)?;
                }
                let del = match which {
                    0 => &values[..0],
                    1 => &values[..],
                    2 => &values[..n / 2],
                    3 => &values[..n.min(1)],
                    _ => &values[n - n.min(1)..],
                };
                w.del(&fx, del)?;
                w.check_search(exec, &fx, &[kw("a")])?;
                if compact == 2 {
                    w.compact(&fx, Renew::Key, 1.0, &Filter::KeepAll)?;
                }
                w.add(&fx, &values[n / 2..])?;
                w.check_search(exec, &fx, &[kw("a")])?;
                exec.state(w.digest());
                Ok(())
            },
        ));
    }
    {
        let top = if thorough { 1 << 17 } else { 1 << 13 };
        let sizes = sizes(63, top);
        phases.push(
            Phase::new(
                "sizes",
                format!(
                    "{} sizes around the powers of two and ten up to {top}, and 2^16 of: {}; everything added \
                     in one call or by 50, half deleted, compacted or not",
                    sizes.len(),
                    DIMENSIONS.join(", ")
                ),
                move |exec| {
                    let which = exec.choose(DIMENSIONS.len());
                    let n = match which {
                        // A path needs a round per keyword.
                        4 => *exec.pick(&sizes[..sizes.partition_point(|n| *n <= 1 << 14)]),
                        _ => *exec.pick(&sizes),
                    };
                    let how = exec.choose(3);
                    exec.say(|| format!("{n} {} how={how}", DIMENSIONS[which]));
                    let all = dimension(which, n);
                    let kws = dimension_keywords(which, n);
                    let mut w = volume_world(&all);
                    let fx = w.sys.client();
                    for c in all.chunks(if how == 1 { 50 } else { all.len() }) {
                        w.add(&fx, c)?;
                    }
                    w.check_search(exec, &fx, &kws)?;
                    w.del(&fx, &half(&all))?;
                    w.check_search(exec, &fx, &kws)?;
                    if how == 2 {
                        w.compact(&fx, Renew::Both, 1.0, &Filter::KeepAll)?;
                        w.check_search(exec, &fx, &kws)?;
                        w.add(&fx, &all)?;
                        w.check_search(exec, &fx, &kws)?;
                    }
                    exec.transitions += 5;
                    exec.state(crate::codec::hash64(&(which, n, how)));
                    Ok(())
                },
            )
            .stack(8 << 20)
            .cpu_limit(200),
        );
    }
    Check {
        id: "C01",
        level: "model_checking",
        rule: "every sequence of calls over the alphabet, up to the stated depth; after the last call \
               every set of keywords is searched and compared with the reference model",
        assumptions: vec![
            "cryptographic primitives behave as specified",
            "values outside the alphabet behave as those inside (lengths are covered by C02)",
        ],
        phases,
    }
}
