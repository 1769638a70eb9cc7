//! C20: the index follows the documented storage format.
use std::collections::{BTreeMap, BTreeSet};

use super::{
    c01, c07,
    common::{
        blob, check_exact, dimension_keywords, half, sized, sized_text, sizes_to, vary_seed, volume_world, Filter, Op,
        Renew, World,
    },
    Check,
};
use crate::{
    codec::{self, value_blocks, Block, Writer},
    conc::{self, TOp},
    explore::{Exec, Phase},
    model::{a, d, kw, p, show, show_iv, show_ivs, show_set, Assoc, Cred, Iv, Live, Model},
    ops,
    sim::{go, Bytes, Fx, Snap, Sys},
};

/// What the independent reader finds in an index used with these credentials only.
fn read_all(snap: &Snap, cred: &Cred, universe: &BTreeSet<Bytes>) -> Result<codec::View, String> {
    let v = codec::view(snap, cred, universe)?;
    if !v.decoded.foreign.is_empty() {
        return Err(format!(
            "{} entries cannot be opened with the key of the index",
            v.decoded.foreign.len()
        ));
    }
    if v.unknown != 0 {
        return Err(format!("{} entries are not those of any keyword of the index", v.unknown));
    }
    if !v.decoded.orphans.is_empty() {
        return Err(format!("{} chain rows belong to no entry", v.decoded.orphans.len()));
    }
    if let Some(e) = v.decoded.entries.iter().find(|e| e.missing > 0) {
        return Err(format!("{} rows of a chain are missing", e.missing));
    }
    Ok(v)
}

fn same(found: &Live, want: &Live) -> Result<(), String> {
    let none = BTreeSet::new();
    for k in found.keys().chain(want.keys()).collect::<BTreeSet<_>>() {
        let (f, w) = (found.get(k).unwrap_or(&none), want.get(k).unwrap_or(&none));
        if f != w {
            return Err(format!(
                "the independent reader finds {} for {} instead of {}",
                show_ivs(f),
                show(k),
                show_ivs(w)
            ));
        }
    }
    Ok(())
}

fn check_read(exec: &mut Exec, w: &World) -> Result<(), String> {
    let v = read_all(&w.sys.snap(), &w.cur(), &w.universe)?;
    exec.validated += 1;
    same(&v.live, &w.model.live)
}

fn alphabet() -> Vec<Op> {
    let mut ops = c01::alphabet();
    ops.push(Op::Add(vec![a("b", Iv::D(Vec::new())), a("b", Iv::P(Vec::new())), a("a", d(""))]));
    ops.push(Op::Del(vec![a("b", Iv::P(Vec::new())), a("c", Iv::D(blob(80, 1)))]));
    ops.push(Op::Add(vec![a("c", Iv::D(blob(79, 1))), a("c", Iv::D(blob(80, 1))), a("c", Iv::P(blob(15, 1)))]));
    ops
}

/// A value to write: is addition, value.
type Step = (bool, Iv);

/// Lays out insertions in links: each starts a new link and fills the links it uses.
fn layout(insertions: &[Vec<Step>]) -> Vec<Vec<Block>> {
    let mut links = Vec::new();
    for i in insertions {
        let blocks = i
            .iter()
            .flat_map(|(add, v)| value_blocks(*add, &codec::to_raw(v)))
            .collect::<Vec<_>>();
        links.extend(blocks.chunks(5).map(<[Block]>::to_vec));
    }
    links
}

fn result(insertions: &[Vec<Step>], lost: Option<usize>) -> BTreeSet<Iv> {
    let mut s = BTreeSet::new();
    for (n, i) in insertions.iter().enumerate() {
        if lost == Some(n) {
            continue;
        }
        for (add, v) in i {
            if *add {
                s.insert(v.clone());
            } else {
                s.remove(v);
            }
        }
    }
    s
}

/// A value that the format forbids is refused, not decoded.
fn illegal(exec: &mut Exec, top: usize) -> Result<(), String> {
    let legal = |n: usize, x: &str| -> Vec<Block> {
        (0..n).flat_map(|i| value_blocks(true, &codec::to_raw(&d(&format!("{x}{i}"))))).collect()
    };
    let n = exec.choose(top);
    let mut blocks = legal(n, "before");
    match exec.choose(3) {
        0 => {
            let len = 2 + exec.choose(3);
            let signs = 1 + exec.choose((1 << len) - 2);
            exec.say(|| format!("a value of {len} blocks with the operations {signs:b}"));
            let raw = codec::to_raw(&Iv::D(blob(len * 16 - 10, 3)));
            let value = value_blocks(true, &raw).into_iter().enumerate();
            blocks.extend(value.map(|(i, (_, flag, data))| (signs >> i & 1 == 1, flag, data)));
        }
        1 => {
            let len = exec.choose(3);
            let flag = 17 + exec.choose(254 - 16) as u8;
            let add = exec.flag();
            exec.say(|| format!("a value of {} blocks, the last one of {flag} bytes", len + 1));
            let raw = codec::to_raw(&Iv::D(blob(len * 16 + 5, 3)));
            let mut value = value_blocks(add, &raw);
            value.last_mut().expect("never empty").1 = flag;
            blocks.extend(value);
        }
        _ => {
            let first = exec.choose(256) as u8;
            let raw = codec::to_raw(&Iv::D(blob(10 + 16 * exec.choose(2), 3)));
            if [codec::to_raw(&d("")), codec::to_raw(&p(""))].iter().any(|x| x[0] == first) {
                return Ok(());
            }
            exec.say(|| format!("a value beginning by {first}"));
            blocks.extend(value_blocks(true, &[&[first], &raw[1..]].concat()));
        }
    }
    blocks.extend(legal(exec.choose(top), "after"));
    let links = blocks.chunks(5).map(<[Block]>::to_vec).collect::<Vec<_>>();
    let mut wr = Writer::new();
    let cred = Cred::new(3, "writer");
    wr.entry(&cred, b"a", &links, &[]);
    wr.entry(&cred, b"b", &layout(&[vec![(true, d("sane"))]]), &[]);
    let sys = Sys::new();
    sys.restore(&wr.snap);
    let fx = sys.client();
    exec.transitions += 3;
    exec.validated += 3;
    if let Ok(found) = go(ops::search(&fx, &cred, &[kw("a")])) {
        return Err(format!("the search succeeds and finds {}", show_set(&found[&kw("a")])));
    }
    match go(ops::search(&fx, &cred, &[kw("b")])) {
        Ok(found) if found[&kw("b")] == [b"sane".to_vec()].into() => (),
        other => return Err(format!("another keyword is affected: {other:?}")),
    }
    let mut new = cred.clone();
    new.label = b"new".to_vec();
    if go(ops::compact(&fx, &cred, &new, 1.0)).is_ok() {
        return Err("the compaction succeeds".into());
    }
    if sys.snap() != wr.snap {
        return Err("the compaction fails and changes the tables".into());
    }
    Ok(())
}

/// The implementation must use the tables of the writer.
fn use_index(
    exec: &mut Exec,
    snap: &Snap,
    cred: &Cred,
    live: Live,
    universe: &[&str],
    deep: bool,
) -> Result<(), String> {
    let sys = Sys::new();
    sys.restore(snap);
    let fx = sys.client();
    let mut model = Model { live };
    let kws = universe.iter().map(|k| kw(k)).collect::<Vec<_>>();
    let uni = kws.iter().cloned().collect::<BTreeSet<_>>();
    check_exact(exec, &fx, cred, &model, &kws)?;
    exec.transitions += 1;
    exec.state(codec::digest(snap, std::slice::from_ref(cred), &uni));
    let base = sys.snap();
    if base.et_set() != snap.et_set() || base.ct_set() != snap.ct_set() {
        return Err("a search changed the tables".into());
    }
    let compactions = |exec: &mut Exec, sys: &Sys, model: &Model| -> Result<(), String> {
        let snap = sys.snap();
        for (renew_key, rate) in [(false, 1.0), (true, 1.0), (true, 0.0)] {
            let mut new = cred.clone();
            new.label = b"compacted".to_vec();
            if renew_key {
                new.key = Cred::new(77, "").key;
            }
            go(ops::compact(&fx, cred, &new, rate)).map_err(|e| format!("compact failed: {e}"))?;
            exec.transitions += 1;
            check_exact(exec, &fx, &new, model, &kws)?;
            let v = codec::view(&sys.snap(), &new, &uni)?;
            same(&v.live, &model.live)?;
            if rate >= 1.0 {
                read_all(&sys.snap(), &new, &uni)?;
            }
            sys.restore(&snap);
        }
        Ok(())
    };
    compactions(exec, &sys, &model)?;
    if !deep {
        return Ok(());
    }
    // Updates: something new, something known again, and the deletion of something stored.
    let stored = model.of(&kws[0]).first().cloned();
    let mut x: Vec<Assoc> = vec![(kws[0].clone(), d("new")), (kws[1].clone(), Iv::D(blob(33, 9)))];
    if let Some(v) = &stored {
        x.push((kws[0].clone(), v.clone()));
    }
    go(ops::add(&fx, cred, &x)).map_err(|e| format!("add failed: {e}"))?;
    model.add(&x);
    check_exact(exec, &fx, cred, &model, &kws)?;
    same(&codec::view(&sys.snap(), cred, &uni)?.live, &model.live)?;
    if let Some(v) = stored {
        let y = vec![(kws[0].clone(), v), (kws[1].clone(), d("absent"))];
        go(ops::del(&fx, cred, &y)).map_err(|e| format!("delete failed: {e}"))?;
        model.del(&y);
        check_exact(exec, &fx, cred, &model, &kws)?;
        same(&codec::view(&sys.snap(), cred, &uni)?.live, &model.live)?;
    }
    exec.transitions += 2;
    compactions(exec, &sys, &model)
}

fn menu() -> Vec<Iv> {
    vec![
        d("x"),
        // Raw forms of 16 (a full block and an empty one), 32 and 81 bytes.
        Iv::D(blob(15, 1)),
        Iv::D(blob(31, 2)),
        Iv::P(blob(80, 3)),
    ]
}

/// All sequences of insertions holding `n` operations over the values of the menu.
fn insertions(exec: &mut Exec, n: usize, values: &[Iv]) -> Vec<Vec<Step>> {
    let mut res: Vec<Vec<Step>> = Vec::new();
    for i in 0..n {
        let v = exec.pick(values).clone();
        let add = exec.choose(2) == 0;
        if i == 0 || exec.flag() {
            res.push(Vec::new());
        }
        res.last_mut().expect("not empty").push((add, v));
    }
    res
}

fn show_insertions(ins: &[Vec<Step>]) -> String {
    ins.iter()
        .map(|i| {
            format!(
                "({})",
                i.iter()
                    .map(|(add, v)| format!("{}{}", if *add { "+" } else { "-" }, show_iv(v)))
                    .collect::<Vec<_>>()
                    .join(" ")
            )
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn live_map(items: Vec<(Bytes, BTreeSet<Iv>)>) -> Live {
    items.into_iter().filter(|(_, s)| !s.is_empty()).collect::<BTreeMap<_, _>>()
}

pub fn check(thorough: bool) -> Check {
    let mut phases = Vec::new();
    {
        let ops = alphabet();
        let top = if thorough { 5 } else { 4 };
        for depth in 0..=top {
            let ops = ops.clone();
            phases.push(Phase::new(
                &format!("reader-histories-{depth}"),
                format!("all histories of {depth} calls over {} calls, decoded after the last", ops.len()),
                move |exec| {
                    let mut w = World::new(&["a", "b", "c"]);
                    let fx = w.sys.client();
                    for _ in 0..depth {
                        let op = exec.pick(&ops).clone();
                        exec.say(|| op.show());
                        w.apply(exec, &fx, &op)?;
                    }
                    exec.state(w.digest());
                    check_read(exec, &w)
                },
            ));
        }
    }
    {
        let top = if thorough { 2400 } else { 700 };
        phases.push(Phase::new(
            "reader-lengths",
            format!("one value of each length 0..{top}, data or pointer, after 0..5 short ones, deleted or not"),
            move |exec| {
                let n = exec.choose(top);
                let pointer = exec.flag();
                let before = exec.choose(if n < 200 { 5 } else { 2 });
                let deleted = exec.flag();
                let mut w = World::new(&["k"]);
                let fx = w.sys.client();
                let b = blob(n, 3);
                let v = if pointer { Iv::P(b) } else { Iv::D(b) };
                exec.say(|| format!("{} after {before} values, deleted: {deleted}", show_iv(&v)));
                let mut x = (0..before).map(|i| a("k", d(&format!("v{i}")))).collect::<Vec<_>>();
                x.push(a("k", v.clone()));
                w.add(&fx, &x)?;
                if deleted {
                    w.del(&fx, &[a("k", v)])?;
                }
                exec.transitions += 2;
                exec.state(w.digest());
                check_read(exec, &w)
            },
        ));
    }
    {
        let top = if thorough { 600 } else { 300 };
        phases.push(Phase::new(
            "reader-keywords-labels",
            format!("keywords and labels of every length 0..{top} and 3 contents, 3 keys"),
            move |exec| {
                let n = exec.choose(top);
                let on_label = exec.flag();
                let fill = exec.choose(3);
                let bytes = match fill {
                    0 => vec![0; n],
                    1 => vec![255; n],
                    _ => blob(n, 5),
                };
                exec.say(|| format!("length {n} on the label: {on_label} fill {fill}"));
                let mut w = World::new(&[]);
                let mut cred = w.cur();
                cred.key = Cred::new(fill as u8, "").key;
                let k = if on_label { kw("k") } else { bytes.clone() };
                if on_label {
                    cred.label = bytes;
                }
                w.creds = vec![cred];
                w.universe.insert(k.clone());
                let fx = w.sys.client();
                w.add(&fx, &[(k.clone(), d("1")), (k, p("other"))])?;
                exec.transitions += 1;
                exec.state(w.digest());
                check_read(exec, &w)
            },
        ));
    }
    {
        let ops = [
            Op::Add(vec![a("a", d("1"))]),
            Op::Add(vec![a("a", d("2")), a("b", d("a value that needs several blocks, as it is long"))]),
            Op::Del(vec![a("a", d("1"))]),
        ];
        let depth = if thorough { 5 } else { 4 };
        phases.push(Phase::new(
            "reader-credentials",
            format!(
                "all histories of {depth} calls over {} calls, each under one of 3 credentials (2 keys, 2 \
                 labels) of the same tables",
                ops.len()
            ),
            move |exec| {
                let sys = Sys::new();
                let fx = sys.client();
                let creds = [Cred::new(0, "l"), Cred::new(0, "m"), Cred::new(1, "l")];
                let mut models = [Model::default(), Model::default(), Model::default()];
                let uni: BTreeSet<Bytes> = [kw("a"), kw("b")].into();
                for _ in 0..depth {
                    let c = exec.choose(3);
                    let op = exec.pick(&ops);
                    exec.say(|| format!("{}: {}", creds[c].show(), op.show()));
                    match op {
                        Op::Add(x) => {
                            go(ops::add(&fx, &creds[c], x)).map_err(|e| format!("add: {e}"))?;
                            models[c].add(x);
                        }
                        Op::Del(x) => {
                            go(ops::del(&fx, &creds[c], x)).map_err(|e| format!("delete: {e}"))?;
                            models[c].del(x);
                        }
                        _ => unreachable!(),
                    }
                    exec.transitions += 1;
                }
                let snap = sys.snap();
                exec.state(codec::digest(&snap, &creds, &uni));
                let mut chains = BTreeSet::new();
                let mut entries = 0;
                for (c, m) in creds.iter().zip(&models) {
                    let v = codec::view(&snap, c, &uni)?;
                    exec.validated += 1;
                    same(&v.live, &m.live)?;
                    for e in v.decoded.entries {
                        if e.missing > 0 {
                            return Err("chain rows are missing".into());
                        }
                        chains.extend(e.chain);
                    }
                    entries += v.live.len();
                }
                if entries != snap.et.len() {
                    return Err(format!("{} entries, {entries} are explained", snap.et.len()));
                }
                if chains.len() != snap.ct.len() {
                    return Err(format!("{} chain rows, {} are explained", snap.ct.len(), chains.len()));
                }
                Ok(())
            },
        ));
    }
    phases.push(Phase::new(
        "reader-schedules",
        format!(
            "tables decoded after 2 writers with 1 write each ({}^2 pairs), {} initial contents, all schedules of the \
             storage requests",
            c07::N_WRITES,
            c07::INITIALS
        ),
        move |exec| {
            let w = c07::initial(exec.choose(c07::INITIALS))?;
            let cred = w.cur();
            let plans: Vec<Vec<(Cred, TOp)>> = (0..2)
                .map(|t| vec![(cred.clone(), c07::write(t, exec.choose(c07::N_WRITES)))])
                .collect();
            let clients: Vec<Fx> = plans.iter().map(|_| w.sys.client()).collect();
            let Some(records) = conc::run(exec, &w.sys.ctl, &clients, &plans) else {
                return Ok(());
            };
            conc::all_ok(&records)?;
            let v = read_all(&w.sys.snap(), &cred, &w.universe)?;
            exec.validated += 1;
            exec.state(w.digest());
            conc::check_keywords(
                exec,
                &records,
                &cred,
                &w.model.live,
                &v.live,
                &w.universe,
                false,
            )
        },
    ));
    {
        let top = if thorough { 4 } else { 3 };
        phases.push(Phase::new(
            "writer-layouts",
            format!(
                "every sequence of up to {top} operations over 4 values (raw forms of 2, 16, 32 and 81 bytes), in \
                 any grouping into insertions, after 0..5 short values: searched, compacted, updated, compacted"
            ),
            move |exec| {
                let before = exec.choose(5);
                let n = exec.choose(top + 1);
                let values = menu();
                let mut ins = Vec::new();
                if before > 0 {
                    ins.push((0..before).map(|i| (true, d(&format!("b{i}")))).collect::<Vec<Step>>());
                }
                let more = insertions(exec, n, &values);
                // Either in the same insertion as the short ones or not.
                let join = before > 0 && n > 0 && exec.flag();
                for (i, m) in more.into_iter().enumerate() {
                    if i == 0 && join {
                        ins[0].extend(m);
                    } else {
                        ins.push(m);
                    }
                }
                exec.say(|| show_insertions(&ins));
                let mut wr = Writer::new();
                let cred = Cred::new(3, "writer");
                wr.entry(&cred, b"a", &layout(&ins), &[]);
                let live = live_map(vec![(kw("a"), result(&ins, None))]);
                let deep = n < 3 || before < 2;
                use_index(exec, &wr.snap, &cred, live, &["a", "b"], deep)
            },
        ));
    }
    phases.push(Phase::new(
        "writer-splits",
        "7 blocks (values of 1, 2, 1, 3 blocks) cut in links in every way that starts a new link between two \
         values, or not"
            .to_string(),
        move |exec| {
            let vals = [d("p"), Iv::D(blob(20, 1)), d("q"), Iv::P(blob(40, 2))];
            let dels = exec.subset(4);
            let mut ins: Vec<Vec<Step>> = Vec::new();
            for (i, v) in vals.iter().enumerate() {
                if i == 0 || exec.flag() {
                    ins.push(Vec::new());
                }
                ins.last_mut().expect("not empty").push((dels >> i & 1 == 0, v.clone()));
            }
            // Then some of them again, with the opposite sign.
            let again = exec.subset(4);
            if again > 0 {
                ins.push(
                    vals.iter()
                        .enumerate()
                        .filter(|(i, _)| again >> i & 1 == 1)
                        .map(|(i, v)| (dels >> i & 1 == 1, v.clone()))
                        .collect(),
                );
            }
            exec.say(|| show_insertions(&ins));
            let mut wr = Writer::new();
            let cred = Cred::new(3, "writer");
            wr.entry(&cred, b"a", &layout(&ins), &[]);
            let live = live_map(vec![(kw("a"), result(&ins, None))]);
            use_index(exec, &wr.snap, &cred, live, &["a", "b"], true)
        },
    ));
    {
        let top = if thorough { 4 } else { 3 };
        phases.push(Phase::new(
            "writer-illegal",
            format!(
                "0..{top} legal values, then one the format forbids (2 to 4 blocks with every disagreeing set of \
                 operations, a block of every impossible length 17..254 in each position of a value of 1 to 3 blocks, every \
                 first byte that is neither that of a pointer nor that of data, an operation and its opposite), then 0..{top} \
                 legal values: refused by searches and compactions, which change nothing"
            ),
            move |exec| illegal(exec, top),
        ));
    }
    {
        let top = if thorough { 3 } else { 2 };
        phases.push(Phase::new(
            "writer-padding",
            format!(
                "every sequence of 1 to 3 operations over 3 values (of 1 to 3 blocks), with 0..={top} padding blocks \
                 before each and after the last, in consecutive blocks of the links or in new links: searched, \
                 updated, compacted"
            ),
            move |exec| {
                let values = [d("x"), Iv::D(blob(31, 2)), p("y")];
                let n = 1 + exec.choose(3);
                let mut blocks: Vec<Block> = Vec::new();
                let mut links: Vec<Vec<Block>> = Vec::new();
                let mut steps: Vec<Step> = Vec::new();
                let mut text = String::new();
                for i in 0..=n {
                    let holes = exec.choose(top + 1);
                    blocks.extend(std::iter::repeat((false, 0, [0; 16])).take(holes));
                    text += &format!("{holes} padding ");
                    if i == n {
                        break;
                    }
                    let (v, add) = (exec.pick(&values).clone(), exec.choose(2) == 0);
                    if exec.flag() {
                        links.extend(blocks.chunks(5).map(<[Block]>::to_vec));
                        blocks.clear();
                        text += "| ";
                    }
                    text += &format!("{}{} ", if add { "+" } else { "-" }, show_iv(&v));
                    blocks.extend(value_blocks(add, &codec::to_raw(&v)));
                    steps.push((add, v));
                }
                links.extend(blocks.chunks(5).map(<[Block]>::to_vec));
                exec.say(|| text);
                let mut wr = Writer::new();
                let cred = Cred::new(3, "writer");
                wr.entry(&cred, b"a", &links, &[]);
                let mut model = Model {
                    live: live_map(vec![(kw("a"), result(&[steps.clone()], None))]),
                };
                let sys = Sys::new();
                sys.restore(&wr.snap);
                let fx = sys.client();
                let kws = [kw("a"), kw("b")];
                check_exact(exec, &fx, &cred, &model, &kws)?;
                let x = vec![(kw("a"), steps[0].1.clone()), (kw("a"), d("new")), (kw("b"), d("z"))];
                go(ops::add(&fx, &cred, &x)).map_err(|e| format!("add failed: {e}"))?;
                model.add(&x);
                check_exact(exec, &fx, &cred, &model, &kws)?;
                let y = vec![(kw("a"), steps[n - 1].1.clone())];
                go(ops::del(&fx, &cred, &y)).map_err(|e| format!("delete failed: {e}"))?;
                model.del(&y);
                check_exact(exec, &fx, &cred, &model, &kws)?;
                let new = Cred::new(77, "compacted");
                go(ops::compact(&fx, &cred, &new, 1.0)).map_err(|e| format!("compact failed: {e}"))?;
                check_exact(exec, &fx, &new, &model, &kws)?;
                let uni: BTreeSet<Bytes> = kws.into();
                let v = read_all(&sys.snap(), &new, &uni)?;
                exec.transitions += 4;
                exec.state(codec::digest(&sys.snap(), &[new], &uni));
                same(&v.live, &model.live)
            },
        ));
    }
    phases.push(Phase::new(
        "writer-interrupted",
        "every sequence of up to 3 insertions of 1 or 2 values, the links of one of them being absent (its \
         writer died), or the last being absent"
            .to_string(),
        move |exec| {
            let n = 1 + exec.choose(3);
            let values = menu();
            let ins: Vec<Vec<Step>> = (0..n)
                .map(|_| {
                    (0..1 + exec.choose(2))
                        .map(|_| (exec.choose(2) == 0, exec.pick(&values[..3]).clone()))
                        .collect()
                })
                .collect();
            let lost = exec.choose(n);
            exec.say(|| format!("{} without insertion {lost}", show_insertions(&ins)));
            let first = layout(&ins[..lost]).len();
            let drop = (first..first + layout(&ins[lost..=lost]).len()).collect::<Vec<_>>();
            let mut wr = Writer::new();
            let cred = Cred::new(3, "writer");
            wr.entry(&cred, b"a", &layout(&ins), &drop);
            let live = live_map(vec![(kw("a"), result(&ins, Some(lost)))]);
            use_index(exec, &wr.snap, &cred, live, &["a", "b"], n < 3)
        },
    ));
    phases.push(Phase::new(
        "writer-graphs",
        "every graph of pointers between 3 keywords (with or without data), written by the independent writer \
         under 2 credentials with different contents"
            .to_string(),
        move |exec| {
            let cred = Cred::new(3, "writer");
            let other = Cred::new(exec.choose(2) as u8 + 3, "another");
            let names = ["a", "b", "c"];
            let edges = exec.subset(9);
            let data = exec.subset(3);
            exec.say(|| format!("edges {edges:09b} data {data:03b}"));
            let mut live = Live::new();
            let mut wr = Writer::new();
            for (i, k) in names.iter().enumerate() {
                let mut ins: Vec<Step> = Vec::new();
                for (j, t) in names.iter().enumerate() {
                    if edges >> (3 * i + j) & 1 == 1 {
                        ins.push((true, p(t)));
                    }
                }
                if data >> i & 1 == 1 {
                    ins.push((true, d(&format!("data of {k}"))));
                }
                if ins.is_empty() {
                    continue;
                }
                let ins = [ins];
                wr.entry(&cred, k.as_bytes(), &layout(&ins), &[]);
                live.insert(kw(k), result(&ins, None));
            }
            let foreign = [vec![(true, d("foreign")), (true, p("a"))]];
            wr.entry(&other, b"b", &layout(&foreign), &[]);
            let sys = Sys::new();
            sys.restore(&wr.snap);
            let fx = sys.client();
            let kws = names.iter().map(|k| kw(k)).collect::<Vec<_>>();
            let model = Model { live };
            check_exact(exec, &fx, &cred, &model, &kws)?;
            let m2 = Model {
                live: live_map(vec![(kw("b"), result(&foreign, None))]),
            };
            check_exact(exec, &fx, &other, &m2, &kws)?;
            let x = [a("a", d("more")), a("b", p("c"))];
            let mut model = model;
            go(ops::add(&fx, &cred, &x)).map_err(|e| format!("add failed: {e}"))?;
            model.add(&x);
            check_exact(exec, &fx, &cred, &model, &kws)?;
            check_exact(exec, &fx, &other, &m2, &kws)?;
            let uni = kws.iter().cloned().collect();
            same(&codec::view(&sys.snap(), &cred, &uni)?.live, &model.live)?;
            same(&codec::view(&sys.snap(), &other, &uni)?.live, &m2.live)?;
            exec.transitions += 5;
            exec.state(codec::digest(&sys.snap(), &[cred, other], &uni));
            Ok(())
        },
    ));
    {
        let top = if thorough { 400 } else { 120 };
        phases.push(Phase::new(
            "writer-long-chains",
            format!("chains of 0..{top} links, full, or holding one value each, or one value over all of them"),
            move |exec| {
                vary_seed(exec, 1);
                let n = exec.choose(top);
                let how = exec.choose(3);
                exec.say(|| format!("{n} links, {how}"));
                let ins: Vec<Vec<Step>> = match how {
                    0 => vec![(0..5 * n).map(|i| (true, d(&format!("{i}")))).collect()],
                    1 => (0..n).map(|i| vec![(true, d(&format!("{i}")))]).collect(),
                    _ if n == 0 => vec![],
                    _ => vec![vec![(true, Iv::D(blob(n * 80 - 2, 4)))]],
                };
                let links = layout(&ins);
                if links.len() != n {
                    return Err(format!("{} links instead of {n}", links.len()));
                }
                let mut wr = Writer::new();
                let cred = Cred::new(3, "writer");
                wr.entry(&cred, b"a", &links, &[]);
                let live = live_map(vec![(kw("a"), result(&ins, None))]);
                use_index(exec, &wr.snap, &cred, live, &["a", "b"], true)
            },
        ));
    }
    {
        let ns = sizes_to(if thorough { 1 << 14 } else { 1 << 11 });
        phases.push(Phase::new(
            "sizes",
            format!(
                "{}: decoded once added, once half deleted, once compacted; written by the independent writer, in as \
                 many insertions as values or in a single one, then searched, updated and compacted",
                sized_text(&ns)
            ),
            move |exec| {
                let (which, n, all) = sized(exec, &ns);
                let kws = dimension_keywords(which, n);
                let search = which != 4 || n <= 300;
                let reader = exec.flag();
                if reader {
                    let mut w = volume_world(&all);
                    let fx = w.sys.client();
                    w.add(&fx, &all)?;
                    check_read(exec, &w)?;
                    w.del(&fx, &half(&all))?;
                    check_read(exec, &w)?;
                    w.compact(&fx, Renew::Both, 1.0, &Filter::KeepAll)?;
                    exec.transitions += 3;
                    exec.state(codec::hash64(&(which, n)));
                    return check_read(exec, &w);
                }
                let single = exec.flag();
                exec.say(|| format!("written in a single insertion: {single}"));
                let mut by_kw: BTreeMap<Bytes, Vec<Step>> = BTreeMap::new();
                for (k, v) in &all {
                    by_kw.entry(k.clone()).or_default().push((true, v.clone()));
                }
                let mut wr = Writer::new();
                let cred = Cred::new(3, "writer");
                for (k, steps) in by_kw {
                    let ins =
                        if single { vec![steps] } else { steps.into_iter().map(|s| vec![s]).collect::<Vec<_>>() };
                    wr.entry(&cred, &k, &layout(&ins), &[]);
                }
                let mut w = volume_world(&all);
                w.sys.restore(&wr.snap);
                w.creds = vec![cred];
                w.model.add(&all);
                exec.state(codec::hash64(&(which, n, single)));
                let fx = w.sys.client();
                if search {
                    check_exact(exec, &fx, &w.cur(), &w.model, &kws)?;
                }
                w.del(&fx, &half(&all))?;
                check_read(exec, &w)?;
                w.compact(&fx, Renew::Label, 1.0, &Filter::KeepAll)?;
                exec.transitions += 3;
                check_read(exec, &w)?;
                if search {
                    check_exact(exec, &fx, &w.cur(), &w.model, &kws)?;
                }
                Ok(())
            },
        ));
    }
    Check {
        id: "C20",
        level: "model_checking",
        rule: "every history of the domain is decoded by the independent reader, every layout of the domain is \
               written by the independent writer and used by the implementation",
        assumptions: vec![
            "AES-256-GCM, KMAC, SHA-3 and SHAKE are those of the libraries the crate uses",
        ],
        phases,
    }
}
