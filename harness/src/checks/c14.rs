//! C14 (the storage cannot tell operations or contents apart) and C15 (fresh randomness, nothing in
//! clear). C14 runs a history and its variants (same volumes, other contents, additions turned into
//! deletions) in the same execution and compares what the storage sees. C15 monitors every byte sent.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
};

use super::{
    common::{
        blob, dimension, dimension_keywords, sizes as all_sizes, vary_seed, Filter, Op, Renew, World,
        DIMENSIONS,
    },
    Check,
};
use crate::{
    codec, conc,
    explore::{Exec, Phase},
    model::{a, d, kw, Assoc, Cred, Iv},
    ops,
    sim::{go, run, Bytes, Fx, Grant, Kind, Rec, Scheduler, Sys, Wait, CT, FAULTS},
};

// ---------------------------------------------------------------------------------------------------
// C14

/// Lengths (extreme ones) of the data of each class: number of blocks of the stored value.
const CLASSES: [(usize, usize); 4] = [(0, 14), (15, 30), (31, 46), (64, 78)];

/// A call, by its volumes: for each association, its keyword, its class, and if it is a pointer.
#[derive(Debug, Clone)]
enum Shape {
    /// (keyword, class, pointer)
    Write(Vec<(usize, usize, bool)>),
    Search(Vec<usize>),
    Compact(Renew, f64, bool),
}

/// Contents given to a shape.
#[derive(Debug, Clone, Copy, PartialEq)]
struct Style {
    names: usize,
    values: usize,
    cred: usize,
    /// 0: data and pointers as in the shape, 1: the other way round, 2: data only, 3: pointers only, 4: pointers to
    /// the keyword itself where the sizes allow it, 5: pointers to the other keywords of the call where the sizes
    /// allow it, 6: data equal to the keyword where the sizes allow it.
    kinds: usize,
}

const KINDS: usize = 7;
const NAMES: usize = 6;
const VALUES: usize = 7;
const CREDS: usize = 4;

fn name(style: usize, k: usize) -> Bytes {
    match style {
        0 => format!("keyword {k}").into_bytes(),
        // The empty keyword and prefixes of each other.
        1 => b"aaaa"[..k].to_vec(),
        2 => blob(1000 + k, 7),
        3 => vec![0; k + 1],
        // Pointed keywords fill the block.
        4 => format!("fourteen bytes{k}").into_bytes()[1..].to_vec(),
        _ => vec![0xFF, 0xFE, k as u8, 0],
    }
}

/// Content of the `j`-th association of call `call`.
fn value(style: usize, call: usize, j: usize, class: usize) -> Bytes {
    let (lo, hi) = CLASSES[class];
    // Distinct associations of a call stay distinct.
    let tagged = |len: usize, fill: u8, call: usize| {
        let mut v = vec![fill; len];
        if let Some(x) = v.first_mut() {
            *x = j as u8;
        }
        if let Some(x) = v.get_mut(1) {
            *x = call as u8;
        }
        v
    };
    match style {
        // Fresh values.
        0 => tagged(hi, b'x', call + 1),
        1 => tagged(lo.max(2), b'y', call + 1),
        // The same values in every call: repetitions, and deletions of what is there.
        2 => tagged(hi, b'x', 0),
        3 => tagged(lo.max(1), b'z', 0),
        // Bytes that look like the padding.
        4 => tagged(hi - 1, 0, 0),
        5 => tagged(hi, 0xFF, call + 1),
        _ => tagged(lo + (call + j) % (hi - lo + 1), 0x80, 0),
    }
}

fn cred(style: usize) -> Cred {
    match style {
        0 => Cred::new(0, "label-0"),
        1 => Cred::new(9, ""),
        2 => Cred {
            key: [0; 16],
            label: blob(500, 3),
        },
        _ => Cred {
            key: [0xFF; 16],
            label: vec![0; 40],
        },
    }
}

fn next(c: &Cred, renew: Renew) -> Cred {
    let mut n = c.clone();
    if renew != Renew::Label {
        for b in &mut n.key {
            *b = b.wrapping_mul(3).wrapping_add(101);
        }
    }
    if renew != Renew::Key {
        n.label.push(b'+');
    }
    n
}

struct Side {
    sys: Sys,
    fx: Fx,
    cred: Cred,
    style: Style,
    /// What is already indexed of the values that depend on the keywords only.
    used: RefCell<BTreeSet<(Bytes, Bytes)>>,
}

impl Side {
    fn new(style: Style) -> Self {
        let sys = Sys::new();
        let fx = sys.client();
        sys.ctl.record_rows.set(true);
        Self {
            fx,
            sys,
            cred: cred(style.cred),
            style,
            used: RefCell::default(),
        }
    }

    fn assocs(&self, call: usize, list: &[(usize, usize, bool)]) -> Vec<Assoc> {
        list.iter()
            .enumerate()
            .map(|(j, (i, class, pointer))| {
                let k = name(self.style.names, *i);
                if self.style.kinds >= 4 {
                    let (lo, hi) = CLASSES[*class];
                    let mut others = list.iter().map(|x| x.0).filter(|x| x != i);
                    let target = match self.style.kinds {
                        5 => name(self.style.names, others.nth(j % list.len()).unwrap_or(i + 1)),
                        _ => k.clone(),
                    };
                    if (lo..=hi).contains(&target.len()) && self.used.borrow_mut().insert((k.clone(), target.clone())) {
                        return (k, if self.style.kinds == 6 { Iv::D(target) } else { Iv::P(target) });
                    }
                }
                let pointer = match self.style.kinds {
                    0 => *pointer,
                    1 => !*pointer,
                    n => n != 2 && n != 6,
                };
                if pointer {
                    // The class of the pointed keyword is that of its length.
                    (k, Iv::P(value(self.style.values, call, j, *class)))
                } else {
                    (k, Iv::D(value(self.style.values, call, j, *class)))
                }
            })
            .collect()
    }

    /// Executes a call and returns what the storage saw of it. `Ok(false)`: the call failed.
    fn call(&mut self, call: usize, s: &Shape, delete: bool) -> Result<(Vec<Rec>, bool), String> {
        self.sys.ctl.take_trace();
        let ok = match s {
            Shape::Write(list) => {
                let assocs = self.assocs(call, list);
                let n = assocs.iter().collect::<BTreeSet<_>>().len();
                assert_eq!(n, list.len(), "the associations of a call are distinct");
                go(ops::write(&self.fx, &self.cred, !delete, &assocs)).is_ok()
            }
            Shape::Search(ks) => {
                let ks = ks.iter().map(|k| name(self.style.names, *k)).collect::<Vec<_>>();
                go(ops::search(&self.fx, &self.cred, &ks)).is_ok()
            }
            Shape::Compact(renew, rate, keep) => {
                let new = next(&self.cred, *renew);
                let f = if *keep { Filter::KeepAll } else { Filter::KeepNone };
                let ok = go(ops::compact_with(&self.fx, &self.cred, &new, *rate, |x| Ok(f.apply(x)))).is_ok();
                if ok {
                    self.cred = new;
                }
                ok
            }
        };
        Ok((self.sys.ctl.take_trace(), ok))
    }
}

fn same(exec: &mut Exec, what: &str, x: &[Rec], y: &[Rec]) -> Result<(), String> {
    exec.validated += 1;
    let sx = x.iter().map(Rec::shape).collect::<Vec<_>>();
    let sy = y.iter().map(Rec::shape).collect::<Vec<_>>();
    exec.outcome(codec::hash64(&sx));
    if sx != sy {
        return Err(format!(
            "{what}: the storage sees [{}] or [{}] although the volumes are the same",
            x.iter().map(Rec::show).collect::<Vec<_>>().join("; "),
            y.iter().map(Rec::show).collect::<Vec<_>>().join("; ")
        ));
    }
    Ok(())
}

/// All the rows of a table have the same size.
fn sizes(exec: &mut Exec, sys: &Sys) -> Result<(), String> {
    exec.validated += 1;
    let mut seen: BTreeMap<u8, (usize, usize, usize)> = BTreeMap::new();
    for s in sys.ctl.sent.borrow().iter() {
        let n = (s.nonce.len(), s.ciphertext.len(), s.tag.len());
        let e = seen.entry(s.table).or_insert(n);
        if *e != n {
            return Err(format!("rows of sizes {e:?} and {n:?} in table {}", s.table));
        }
    }
    // As serialized: what a remote storage receives.
    let snap = sys.snap();
    let et = snap.et.values().map(|v| Bytes::from(v).len()).collect::<BTreeSet<_>>();
    let ct = snap.ct.values().map(|v| Bytes::from(v).len()).collect::<BTreeSet<_>>();
    for (t, s, want) in [("entry", et, 108), ("chain", ct, 114)] {
        if s.iter().any(|n| *n != want) {
            return Err(format!("rows of the {t} table of sizes {s:?} instead of {want}"));
        }
    }
    Ok(())
}

/// Baseline: additions of fresh values. `style`: contents of the variant; `deletes`: calls of the variant
/// that are deletions.
fn pair(exec: &mut Exec, shapes: &[Shape], style: Style, deletes: usize) -> Result<(), String> {
    let mut x = Side::new(Style {
        names: 0,
        values: 0,
        cred: 0,
        kinds: 0,
    });
    let mut y = Side::new(style);
    exec.say(|| format!("variant: {style:?}, calls turned into deletions: {deletes:b}"));
    for (i, s) in shapes.iter().enumerate() {
        let delete = deletes >> i & 1 == 1;
        exec.transitions += 2;
        exec.say(|| format!("{s:?}{}", if delete { " deleting" } else { "" }));
        let (tx, ox) = x.call(i, s, false)?;
        let (ty, oy) = y.call(i, s, delete)?;
        if !ox || !oy {
            return Err("a call failed".to_string());
        }
        same(exec, &format!("call {i}, {s:?}"), &tx, &ty)?;
    }
    if x.sys.snap().et.len() != y.sys.snap().et.len() || x.sys.snap().ct.len() != y.sys.snap().ct.len() {
        return Err("the tables have different sizes although the volumes are the same".to_string());
    }
    sizes(exec, &x.sys)?;
    sizes(exec, &y.sys)?;
    exec.state(codec::hash64(&format!("{shapes:?}")));
    Ok(())
}

fn write_shapes() -> Vec<Shape> {
    vec![
        Shape::Write(vec![(0, 0, false)]),
        Shape::Write(vec![(1, 1, false)]),
        Shape::Write(vec![(0, 0, false), (1, 0, false), (0, 2, false)]),
        Shape::Write((0..6).map(|j| (j % 2, j % 3, false)).collect()),
        Shape::Write((0..6).map(|_| (0, 0, false)).collect()),
        Shape::Write(vec![(2, 3, false)]),
        Shape::Write(vec![]),
    ]
}

fn styles(exec: &mut Exec) -> Style {
    Style {
        names: exec.choose(NAMES),
        values: exec.choose(VALUES),
        cred: exec.choose(CREDS),
        kinds: 0,
    }
}

/// Order of the schedule of the baseline, replayed by task.
struct Replay {
    tasks: Vec<usize>,
    at: usize,
    bad: Option<String>,
}

impl Scheduler for Replay {
    fn pick(&mut self, waiting: &[Wait]) -> Option<(usize, Grant)> {
        let Some(t) = self.tasks.get(self.at) else {
            self.bad = Some("it sends more requests".to_string());
            return None;
        };
        self.at += 1;
        match waiting.iter().position(|w| w.task == *t) {
            Some(i) => Some((i, Grant::Serve)),
            None => {
                self.bad = Some(format!("client {t} has no request {}", self.at));
                None
            }
        }
    }
}

/// Two clients; the variant gets the same schedule.
fn concurrent(exec: &mut Exec, calls: &[Shape], depth: usize) -> Result<(), String> {
    let style = if depth > 1 {
        let s = exec.choose(2);
        Style {
            names: s,
            values: [2, 5][s],
            cred: s,
            kinds: 0,
        }
    } else {
        Style {
            names: exec.choose(2),
            values: [0, 2, 5][exec.choose(3)],
            cred: exec.choose(2),
            kinds: 0,
        }
    };
    let first = exec.flag();
    let plans = (0..2)
        .map(|_| (0..depth).map(|_| exec.pick(calls).clone()).collect::<Vec<_>>())
        .collect::<Vec<_>>();
    let deletes = if depth > 1 {
        [0b1111, 0b0101, 0b0010][exec.choose(3)]
    } else {
        exec.subset(2 * depth)
    };
    exec.say(|| format!("plans {plans:?}, variant {style:?}, deletions {deletes:b}, non-empty index: {first}"));
    let base = Style {
        names: 0,
        values: 0,
        cred: 0,
        kinds: 0,
    };
    let mut x = Side::new(base);
    let mut y = Side::new(style);
    if first {
        let s = Shape::Write(vec![(0, 1, false), (1, 0, false)]);
        x.call(90, &s, false)?;
        y.call(90, &s, false)?;
    }
    let order = {
        let fx2 = x.sys.client();
        let ctl = x.sys.ctl.clone();
        let mut orders = conc::Orders::new(exec, true);
        let ends = crate::sim::run_tasks(&ctl, tasks(&x, &fx2, &plans, 0), &mut orders);
        let order = orders.order.iter().map(|w| w.task).collect::<Vec<_>>();
        drop(orders);
        if ends.is_none() {
            exec.count("equivalent_schedules_cut", 1);
            return Ok(());
        }
        order
    };
    exec.count("schedules", 1);
    exec.transitions += 2 * order.len() as u64;
    let tx = x.sys.ctl.take_trace();
    let mut replay = Replay {
        tasks: order,
        at: 0,
        bad: None,
    };
    {
        let fx2 = y.sys.client();
        let ctl = y.sys.ctl.clone();
        let ends = crate::sim::run_tasks(&ctl, tasks(&y, &fx2, &plans, deletes), &mut replay);
        if ends.is_none() {
            return Err(format!(
                "under the same schedule, the variant does not send the same requests: {}",
                replay.bad.unwrap_or_default()
            ));
        }
    }
    let ty = y.sys.ctl.take_trace();
    if tx.iter().map(|r| r.task).ne(ty.iter().map(|r| r.task)) {
        return Err("under the same schedule, the variant does not send the same requests".to_string());
    }
    same(exec, "same schedule", &tx, &ty)?;
    sizes(exec, &y.sys)?;
    exec.state(codec::hash64(&(format!("{plans:?}"), tx.iter().map(|r| r.task).collect::<Vec<_>>())));
    Ok(())
}

type Task<'a> = std::pin::Pin<Box<dyn std::future::Future<Output = ()> + 'a>>;

fn tasks<'a>(side: &'a Side, second: &'a Fx, plans: &[Vec<Shape>], deletes: usize) -> Vec<Task<'a>> {
    plans
        .iter()
        .enumerate()
        .map(|(t, plan)| {
            let plan = plan.clone();
            let fx = if t == 0 { &side.fx } else { second };
            Box::pin(async move {
                for (i, s) in plan.iter().enumerate() {
                    let n = t * plan.len() + i;
                    let call = async {
                        match s {
                            Shape::Write(list) => {
                                let assocs = side.assocs(n, list);
                                let _ =
                                    ops::write(fx, &side.cred, deletes >> n & 1 == 0, &assocs).await;
                            }
                            Shape::Search(ks) => {
                                let ks =
                                    ks.iter().map(|k| name(side.style.names, *k)).collect::<Vec<_>>();
                                let _ = ops::search(fx, &side.cred, &ks).await;
                            }
                            Shape::Compact(..) => unreachable!(),
                        }
                    };
                    crate::sim::timed(&side.sys.ctl, call).await;
                }
            }) as Task<'a>
        })
        .collect()
}

/// Names of the pointer graphs, all of one block.
fn graph_name(style: usize, k: usize) -> Bytes {
    match style {
        0 => vec![b'a' + k as u8],
        1 => b"prefixprefix"[..k * 3].to_vec(),
        2 => vec![0; k + 1],
        _ => format!("fourteen byte{k}").into_bytes(),
    }
}

fn graphs(exec: &mut Exec, nodes: usize) -> Result<(), String> {
    let names = exec.choose(4);
    let content = exec.choose(3);
    let cr = exec.choose(CREDS);
    let mut adj = Vec::new();
    for _ in 0..nodes {
        adj.push(exec.subset(nodes));
    }
    let datas = exec.subset(nodes);
    let after = exec.choose(6);
    let mut traces = Vec::new();
    // A renaming; then, without the searches, the renamed graph and data instead of its pointers.
    for variant in 0..4 {
        let (names, content, c) = if variant == 0 { (0, 0, cred(0)) } else { (names, content, cred(cr)) };
        let sys = Sys::new();
        let fx = sys.client();
        sys.ctl.record_rows.set(true);
        let nm = |k: usize| graph_name(names, k);
        let mut assocs = Vec::new();
        for (k, out) in adj.iter().enumerate() {
            for t in 0..nodes {
                if out >> t & 1 == 1 {
                    assocs.push((nm(k), Iv::P(nm(t))));
                }
            }
            if datas >> k & 1 == 1 {
                assocs.push((
                    nm(k),
                    Iv::D(match content {
                        0 => vec![b'0' + k as u8; 3],
                        1 => vec![],
                        // The same bytes as a keyword.
                        _ => nm(k),
                    }),
                ));
            }
        }
        if variant == 3 {
            // Data of the same size instead of the pointers.
            for (i, (_, v)) in assocs.iter_mut().enumerate() {
                *v = Iv::D(format!("data {i}").into_bytes());
            }
        }
        let mut calls = Vec::new();
        go(ops::add(&fx, &c, &assocs)).map_err(|e| format!("add failed: {e}"))?;
        calls.push(sys.ctl.take_trace());
        let mut c2 = c.clone();
        if after > 0 {
            let (renew, rate, keep) = [
                (Renew::Label, 1.0, true),
                (Renew::Key, 0.0, true),
                (Renew::Both, 1.0, false),
                (Renew::Key, 1.0, true),
                (Renew::Both, 0.0, false),
            ][after - 1];
            c2 = next(&c, renew);
            go(ops::compact_with(&fx, &c, &c2, rate, |x| {
                Ok(if keep { x } else { BTreeSet::new() })
            }))
            .map_err(|e| format!("compact failed: {e}"))?;
        }
        calls.push(sys.ctl.take_trace());
        let all = (0..nodes).map(nm).collect::<Vec<_>>();
        if variant < 2 {
            for k in &all {
                go(ops::search(&fx, &c2, std::slice::from_ref(k))).map_err(|e| format!("search failed: {e}"))?;
            }
            go(ops::search(&fx, &c2, &all)).map_err(|e| format!("search failed: {e}"))?;
        }
        calls.push(sys.ctl.take_trace());
        go(ops::del(&fx, &c2, &assocs)).map_err(|e| format!("delete failed: {e}"))?;
        sizes(exec, &sys)?;
        calls.push(sys.ctl.take_trace());
        traces.push(calls);
    }
    exec.say(|| format!("graph {adj:?}, names {names}, data {datas:b} of kind {content}, compaction {after}"));
    exec.transitions += 2 * (nodes as u64 + 4);
    exec.state(codec::hash64(&(adj, datas, after)));
    for (i, call) in ["add", "compaction", "searches", "delete"].iter().enumerate() {
        same(exec, &format!("{call} of a renamed graph"), &traces[0][i], &traces[1][i])?;
        // A compaction that drops all data keeps the pointers.
        if i == 0 || i % 2 == 1 && ![3, 5].contains(&after) {
            same(exec, &format!("{call} of data instead of pointers"), &traces[2][i], &traces[3][i])?;
        }
    }
    Ok(())
}

fn faults(exec: &mut Exec, shapes: &[Shape], depth: usize) -> Result<(), String> {
    let list = (0..depth).map(|_| exec.pick(shapes).clone()).collect::<Vec<_>>();
    let style = Style {
        names: exec.choose(2),
        values: [0, 2, 4][exec.choose(3)],
        cred: 0,
        kinds: 0,
    };
    let deletes = exec.subset(depth);
    let victim = exec.choose(depth);
    let at = exec.choose(4);
    let fault = FAULTS[exec.choose(2)];
    exec.say(|| format!("{list:?}: {fault:?} at request {at} of call {victim}; variant {style:?}, deletions {deletes:b}"));
    let mut x = Side::new(Style {
        names: 0,
        values: 0,
        cred: 0,
        kinds: 0,
    });
    let mut y = Side::new(style);
    for (i, s) in list.iter().enumerate() {
        if i == victim {
            x.sys.ctl.arm(&[(at, fault)]);
            y.sys.ctl.arm(&[(at, fault)]);
        }
        let (tx, ox) = x.call(i, s, false)?;
        let (ty, oy) = y.call(i, s, deletes >> i & 1 == 1)?;
        x.sys.ctl.arm(&[]);
        y.sys.ctl.arm(&[]);
        exec.transitions += 2;
        same(exec, &format!("call {i} ({s:?}), request {at} of call {victim} fails"), &tx, &ty)?;
        if ox != oy {
            return Err(format!("call {i} succeeds or not although the volumes and faults are the same"));
        }
    }
    exec.state(codec::hash64(&(format!("{list:?}"), victim, at, fault)));
    Ok(())
}

/// Every length of a value: the number of rows depends on the number of blocks only.
fn lengths(exec: &mut Exec, top: usize) -> Result<(), String> {
    let n = exec.choose(top);
    let fill = [0u8, 0xFF, b'l', b'w'][exec.choose(4)];
    let pointer = exec.flag();
    let delete = exec.flag();
    let before = exec.choose(6);
    let sys = Sys::new();
    let fx = sys.client();
    sys.ctl.record_rows.set(true);
    let c = cred(0);
    for i in 0..before {
        go(ops::add(&fx, &c, &[a("k", d(&format!("{i}")))])).map_err(|e| format!("add failed: {e}"))?;
    }
    sys.ctl.take_trace();
    let v = vec![fill; n];
    let iv = if pointer { Iv::P(v) } else { Iv::D(v) };
    go(ops::write(&fx, &c, !delete, &[(kw("k"), iv)])).map_err(|e| format!("write failed: {e}"))?;
    let t = sys.ctl.take_trace();
    let links = ((n + 1) / 16 + 1).div_ceil(5);
    let inserted: usize =
        t.iter().filter(|r| r.table == CT && matches!(r.kind, Kind::Insert | Kind::Upsert)).map(|r| r.n_in).sum();
    exec.validated += 1;
    exec.transitions += 1;
    exec.say(|| format!("{n} bytes of value {fill}, pointer: {pointer}, delete: {delete}"));
    exec.state(codec::hash64(&(links, before)));
    sizes(exec, &sys)?;
    if inserted != links {
        return Err(format!("{inserted} rows are stored for a value of {n} bytes which needs {links}"));
    }
    Ok(())
}

/// Contents of any size and others of the same volumes.
fn big(exec: &mut Exec, ns: &[usize]) -> Result<(), String> {
    let which = exec.choose(DIMENSIONS.len());
    let n = *exec.pick(ns);
    let mask = [0u8, 0x5A, 0xFF][exec.choose(3)];
    let deletes = exec.choose(4);
    // Long pointer paths are slow to search.
    let search = which != 4 || n <= 300;
    exec.say(|| {
        format!(
            "{n} {}, the contents of the variant being XORed with {mask}, calls turned into deletions: \
             {deletes:02b}",
            DIMENSIONS[which]
        )
    });
    let other = |b: &Bytes| b.iter().map(|b| b ^ mask).collect::<Bytes>();
    let x = dimension(which, n);
    let y = x
        .iter()
        .map(|(k, v)| {
            let v = match v {
                Iv::D(d) => Iv::D(other(d)),
                Iv::P(p) => Iv::P(other(p)),
            };
            (other(k), v)
        })
        .collect::<Vec<Assoc>>();
    let kws = dimension_keywords(which, n);
    let mut traces = Vec::new();
    for variant in 0..2 {
        let sys = Sys::new();
        let fx = sys.client();
        sys.ctl.record_rows.set(true);
        let c = cred(variant);
        let assocs = if variant == 0 { &x } else { &y };
        let ks = kws.iter().map(|k| if variant == 0 { k.clone() } else { other(k) }).collect::<Vec<_>>();
        // The first write is not a deletion if it is searched.
        let add = |call: usize| variant == 0 || deletes >> call & 1 == 0;
        go(ops::write(&fx, &c, search || add(0), assocs)).map_err(|e| format!("write failed: {e}"))?;
        if search {
            go(ops::search(&fx, &c, &ks)).map_err(|e| format!("search failed: {e}"))?;
        }
        go(ops::write(&fx, &c, add(1), assocs)).map_err(|e| format!("write failed: {e}"))?;
        exec.transitions += 3;
        sizes(exec, &sys)?;
        traces.push(sys.ctl.take_trace());
    }
    exec.state(codec::hash64(&(which, n)));
    same(exec, "same volumes", &traces[0], &traces[1])
}

pub fn c14(thorough: bool) -> Check {
    let mut phases = Vec::new();
    for depth in 1..=if thorough { 4 } else { 3 } {
        let mut shapes = write_shapes();
        shapes.push(Shape::Search(vec![0]));
        shapes.push(Shape::Search(vec![0, 1, 2, 3]));
        let few = depth >= 3;
        phases.push(Phase::new(
            &format!("histories-{depth}"),
            format!(
                "all histories of {depth} calls of given volumes (7 writes, 2 searches): additions of fresh \
                 values compared with every choice of deletions x {} contents",
                if few { "4 keyword sets x 4 value sets x 1 credential set" } else { "6 keyword sets x 7 value sets x 4 credential sets" }
            ),
            move |exec| {
                let list = (0..depth).map(|_| exec.pick(&shapes).clone()).collect::<Vec<_>>();
                let style = if few {
                    Style {
                        names: [0, 1, 3, 2][exec.choose(if depth > 3 { 2 } else { 4 })],
                        values: [0, 2, 5, 6][exec.choose(4)],
                        cred: 0,
                        kinds: 0,
                    }
                } else {
                    styles(exec)
                };
                let writes = list.iter().enumerate().filter(|(_, s)| matches!(s, Shape::Write(_)));
                let mut deletes = 0;
                for (i, _) in writes {
                    deletes |= exec.choose(2) << i;
                }
                pair(exec, &list, style, deletes)
            },
        ));
    }
    for depth in 1..=if thorough { 4 } else { 3 } {
        let shapes = vec![
            Shape::Write(vec![(0, 0, true)]),
            Shape::Write(vec![(0, 0, false), (0, 1, true), (1, 0, true)]),
            Shape::Write(vec![(1, 3, true)]),
            Shape::Write((0..6).map(|j| (0, 0, j % 2 == 0)).collect()),
            Shape::Write((0..7).map(|j| (0, j % 3, j % 2 == 1)).collect()),
            Shape::Write((0..12).map(|j| (j % 2, j % 2, j % 3 == 0)).collect()),
        ];
        let shapes2 = shapes.clone();
        phases.push(Phase::new(
            &format!("pointer-writes-{depth}"),
            format!(
                "all histories of {depth} writes of data and pointers of given volumes: additions of fresh \
                 values compared with every choice of deletions x 7 value sets x 7 choices of data/pointers"
            ),
            move |exec| {
                let list = (0..depth).map(|_| exec.pick(&shapes).clone()).collect::<Vec<_>>();
                let style = Style {
                    names: 5,
                    values: exec.choose(VALUES),
                    cred: 1,
                    kinds: exec.choose(KINDS),
                };
                let deletes = exec.subset(depth);
                pair(exec, &list, style, deletes)
            },
        ));
        let mut shapes = shapes2;
        shapes.push(Shape::Compact(Renew::Label, 1.0, true));
        shapes.push(Shape::Compact(Renew::Both, 0.0, true));
        phases.push(Phase::new(
            &format!("kinds-{depth}"),
            format!(
                "all histories of {depth} calls (6 writes of data and pointers, 2 compactions) of given volumes: \
                 compared with every choice of data/pointers (as they are, exchanged, data only, pointers only, \
                 pointers to the keyword itself, to the others, data equal to the keyword) x 3 value sets"
            ),
            move |exec| {
                let list = (0..depth).map(|_| exec.pick(&shapes).clone()).collect::<Vec<_>>();
                let style = Style {
                    names: 5,
                    values: [0, 1, 5][exec.choose(3)],
                    cred: 1,
                    kinds: exec.choose(KINDS),
                };
                pair(exec, &list, style, 0)
            },
        ));
    }
    for depth in 1..=if thorough { 4 } else { 3 } {
        let shapes = vec![
            Shape::Write(vec![(0, 0, false)]),
            Shape::Write(vec![(0, 1, false), (1, 0, false)]),
            Shape::Search(vec![0, 1]),
            Shape::Compact(Renew::Label, 1.0, true),
            Shape::Compact(Renew::Key, 0.0, true),
            Shape::Compact(Renew::Both, 1.0, false),
        ];
        phases.push(Phase::new(
            &format!("compactions-{depth}"),
            format!(
                "all histories of {depth} calls (2 additions, a search, 3 compactions) and contents of the \
                 same volumes (5 keyword sets x 3 value sets x 4 credential sets)"
            ),
            move |exec| {
                let list = (0..depth).map(|_| exec.pick(&shapes).clone()).collect::<Vec<_>>();
                let style = Style {
                    names: exec.choose(NAMES),
                    values: [0, 1, 5][exec.choose(3)],
                    cred: exec.choose(CREDS),
                    kinds: 0,
                };
                pair(exec, &list, style, 0)
            },
        ));
    }
    {
        let nodes = if thorough { 3 } else { 2 };
        for n in 1..=nodes {
            phases.push(Phase::new(
                &format!("graphs-{n}"),
                format!(
                    "all pointer graphs over {n} keywords with or without data: 4 namings x 3 data contents \
                     x 4 credential sets x 6 compactions or none, all searches; data instead of the pointers"
                ),
                move |exec| graphs(exec, n),
            ));
        }
    }
    {
        let depth = if thorough { 3 } else { 2 };
        let mut shapes = write_shapes();
        shapes.push(Shape::Search(vec![0, 1]));
        phases.push(Phase::new(
            "faults",
            format!(
                "all histories of {depth} calls of given volumes x a failure (before or after its effect) at \
                 every request of every call x 6 contents x every choice of deletions"
            ),
            move |exec| faults(exec, &shapes, depth),
        ));
    }
    for depth in 1..=if thorough { 2 } else { 1 } {
        let calls = vec![
            Shape::Write(vec![(0, 0, false)]),
            Shape::Write(vec![(0, 1, false), (1, 0, false)]),
            Shape::Write((0..6).map(|_| (1, 0, false)).collect()),
            Shape::Search(vec![0, 1]),
        ];
        phases.push(Phase::new(
            &format!("concurrent-{depth}"),
            format!(
                "two clients of {depth} calls out of {}, every schedule of their requests, on an empty or \
                 non-empty index: additions of fresh values compared with {} under the same schedule",
                calls.len(),
                if depth > 1 { "3 choices of deletions x 2 contents" } else { "every choice of deletions x 12 contents" }
            ),
            move |exec| concurrent(exec, &calls, depth),
        ));
    }
    {
        let top = if thorough { 1200 } else { 400 };
        phases.push(Phase::new(
            "lengths",
            format!("values of 0..{top} bytes x 4 contents x data/pointer x add/delete x 0..6 values before"),
            move |exec| lengths(exec, top),
        ));
    }
    {
        let ns = all_sizes(1, if thorough { 1 << 14 } else { 1 << 11 })
            .into_iter()
            .filter(|n| thorough || *n < 5000)
            .collect::<Vec<_>>();
        phases.push(Phase::new(
            "big",
            format!(
                "{} dimensions ({}) x {} sizes up to {}, contents XORed with 3 masks x every choice of deletions: a \
                 write, a search, a write",
                DIMENSIONS.len(),
                DIMENSIONS.join(", "),
                ns.len(),
                ns.last().expect("not empty")
            ),
            move |exec| big(exec, &ns),
        ));
    }
    Check {
        id: "C14",
        level: "model_checking",
        rule: "every history of volumes is executed with every contents of those volumes (and additions \
               turned into deletions); the kinds, numbers and sizes of all requests must be the same",
        assumptions: vec![
            "the storage sees the kinds, numbers, sizes, answers and order of the requests, not their timing \
             inside the client",
        ],
        phases,
    }
}

// ---------------------------------------------------------------------------------------------------
// C15

/// Secrets that should never be seen.
#[derive(Default)]
struct Secrets {
    windows: HashMap<[u8; 8], String>,
}

impl Secrets {
    fn add(&mut self, what: &str, bytes: &[u8]) {
        for w in bytes.windows(8) {
            // Constant windows could legitimately be seen (padding of an encoding, say).
            if w.iter().any(|b| *b != w[0]) {
                self.windows
                    .entry(w.try_into().expect("8 bytes"))
                    .or_insert_with(|| what.to_string());
            }
        }
    }

    fn assocs(&mut self, assocs: &[Assoc]) {
        for (k, iv) in assocs {
            self.keyword(k);
            match iv {
                Iv::D(d) => self.add("indexed data", d),
                Iv::P(p) => self.keyword(p),
            }
        }
    }

    fn keyword(&mut self, k: &[u8]) {
        self.add("a keyword", k);
        self.add("the unkeyed hash of a keyword", &codec::hash_kw(k));
    }

    fn creds<'a>(&mut self, creds: impl Iterator<Item = &'a Cred>) {
        for c in creds {
            self.add("a user key", &c.key);
        }
    }
}

/// Everything sent so far satisfies the property. `shared`: two entries may own the same chain (the old
/// and new entries of a keyword, after an interrupted compaction).
fn audit(
    exec: &mut Exec,
    sys: &Sys,
    creds: &[Cred],
    secrets: &mut Secrets,
    shared: bool,
) -> Result<(), String> {
    audit_but(exec, sys, creds, secrets, shared, &HashSet::new())
}

/// Same, but these chain tokens may be used again.
fn audit_but(
    exec: &mut Exec,
    sys: &Sys,
    creds: &[Cred],
    secrets: &mut Secrets,
    shared: bool,
    reusable: &HashSet<[u8; 32]>,
) -> Result<(), String> {
    exec.validated += 1;
    secrets.creds(creds.iter());
    let snap = sys.snap();
    let mut owners: HashMap<[u8; 32], [u8; 32]> = HashMap::new();
    let mut keys = BTreeSet::new();
    for c in creds {
        if !keys.insert(c.key) {
            continue;
        }
        let decoded = match codec::decode(&snap, &c.key) {
            Ok(d) => d,
            // The rows used twice do not make a chain.
            Err(_) if !reusable.is_empty() => continue,
            Err(e) => return Err(e),
        };
        for e in decoded.entries {
            secrets.add("a chain seed", &e.seed);
            for t in &e.chain {
                if let Some(other) = owners.insert(*t, e.kw_hash) {
                    if !(shared && other == e.kw_hash) {
                        return Err("two entries own the same chain row".to_string());
                    }
                }
            }
        }
    }
    let sent = sys.ctl.sent.borrow();
    let mut nonces = HashSet::with_capacity(sent.len());
    let mut ciphertexts = HashSet::with_capacity(sent.len());
    let mut chain = HashSet::new();
    let mut entries = HashSet::new();
    for s in sent.iter() {
        if s.nonce.is_empty() || !nonces.insert(&s.nonce) {
            return Err(format!("a nonce is used twice ({:?} {})", s.kind, table(s.table)));
        }
        if !ciphertexts.insert(&s.ciphertext) {
            return Err(format!("the same ciphertext is sent twice ({:?} {})", s.kind, table(s.table)));
        }
        if s.table == CT {
            if !chain.insert(s.token) && !reusable.contains(&s.token) {
                return Err("a chain-row token is used twice".to_string());
            }
        } else {
            entries.insert(s.token);
        }
    }
    if entries.iter().any(|t| chain.contains(t)) {
        return Err("an entry and a chain row share their token".to_string());
    }
    let look = |bytes: &[u8]| -> Result<(), String> {
        for w in bytes.windows(8) {
            if let Some(what) = secrets.windows.get(<&[u8; 8]>::try_from(w).expect("8 bytes")) {
                return Err(format!("{what} is sent in clear to the storage"));
            }
        }
        Ok(())
    };
    for s in sent.iter() {
        look(&s.token)?;
        look(&s.nonce)?;
        look(&s.ciphertext)?;
        look(&s.tag)?;
    }
    for t in sys.ctl.tokens_sent.borrow().iter() {
        look(t)?;
    }
    exec.count("rows_audited", sent.len() as u64);
    exec.count("tokens_audited", sys.ctl.tokens_sent.borrow().len() as u64);
    Ok(())
}

fn table(t: u8) -> &'static str {
    if t == CT {
        "in the chain table"
    } else {
        "in the entry table"
    }
}

/// The alphabet of C01 with long values, so that they can be recognised.
fn alphabet() -> Vec<Op> {
    let k = |s: &str| format!("keyword named {s}").into_bytes();
    let v = |s: &str| Iv::D(format!("the data number {s}, rather long").into_bytes());
    let to = |s: &str| Iv::P(k(s));
    let many = (0..7).map(|i| (k("a"), v(&format!("many-{i}")))).collect::<Vec<_>>();
    vec![
        Op::Add(vec![(k("a"), v("1"))]),
        Op::Del(vec![(k("a"), v("1"))]),
        Op::Add(vec![(k("a"), v("1")), (k("b"), v("1")), (k("b"), to("a")), (k("c"), to("b"))]),
        Op::Del(vec![(k("a"), v("1")), (k("b"), v("2"))]),
        Op::Add(many.clone()),
        Op::Del(many[2..].to_vec()),
        // Blocks of zeros, empty values.
        Op::Add(vec![(k("a"), Iv::D(vec![0; 64])), (k("b"), Iv::D(vec![])), (vec![], v("1"))]),
        Op::Search(vec![k("a"), k("b"), k("c"), k("nothing")]),
        Op::Compact(Renew::Label, 1.0, Filter::KeepAll),
        Op::Compact(Renew::Key, 0.35, Filter::KeepAll),
        Op::Compact(Renew::Both, 0.0, Filter::KeepAll),
        Op::Compact(Renew::Label, 1.0, Filter::KeepNone),
    ]
}

fn universe() -> Vec<String> {
    ["a", "b", "c", "nothing"].iter().map(|s| format!("keyword named {s}")).collect()
}

fn note(secrets: &mut Secrets, op: &Op) {
    match op {
        Op::Add(x) | Op::Del(x) => secrets.assocs(x),
        Op::Search(ks) => ks.iter().for_each(|k| secrets.keyword(k)),
        Op::Compact(..) => (),
    }
}

/// `clients`: 0 for a new client at each call.
fn fresh_history(exec: &mut Exec, ops: &[Op], depth: usize, clients: usize) -> Result<(), String> {
    let names = universe();
    let mut w = World::new(&names.iter().map(String::as_str).collect::<Vec<_>>());
    w.sys.ctl.record_rows.set(true);
    let fxs = (0..clients).map(|_| w.sys.client()).collect::<Vec<_>>();
    let mut secrets = Secrets::default();
    let mut keys = HashSet::new();
    for _ in 0..depth {
        let op = exec.pick(ops).clone();
        let c = if clients > 1 { exec.choose(clients) } else { 0 };
        exec.say(|| format!("client {c}: {}", op.show()));
        note(&mut secrets, &op);
        let own;
        let fx = if clients == 0 {
            own = w.sys.client();
            &own
        } else {
            &fxs[c]
        };
        w.apply(exec, fx, &op)?;
        // Seeds of the chains that a later compaction removes.
        audit(exec, &w.sys, &w.creds, &mut secrets, false)?;
        if !keys.insert(cosmian_findex_keygen(fx)) {
            return Err("the same user key is generated twice".to_string());
        }
    }
    audit(exec, &w.sys, &w.creds, &mut secrets, false)?;
    exec.state(w.digest());
    Ok(())
}

fn cosmian_findex_keygen(fx: &Fx) -> Vec<u8> {
    use cosmian_findex::Index;
    fx.keygen().to_vec()
}

/// Several indexes in the same tables, with the same contents.
fn several(exec: &mut Exec, depth: usize, ops: &[Op]) -> Result<(), String> {
    let creds = [
        Cred::new(0, "label-0"),
        Cred::new(0, "label-1"),
        Cred::new(1, "label-0"),
        Cred::new(0, ""),
    ];
    let sys = Sys::new();
    sys.ctl.record_rows.set(true);
    let fxs = [sys.client(), sys.client()];
    let mut secrets = Secrets::default();
    for _ in 0..depth {
        let c = exec.pick(&creds).clone();
        let op = exec.pick(ops).clone();
        let fx = &fxs[exec.choose(2)];
        exec.say(|| format!("({}) {}", c.show(), op.show()));
        exec.transitions += 1;
        note(&mut secrets, &op);
        match &op {
            Op::Add(x) => go(ops::add(fx, &c, x)).map(|_| ()),
            Op::Del(x) => go(ops::del(fx, &c, x)).map(|_| ()),
            Op::Search(ks) => go(ops::search(fx, &c, ks)).map(|_| ()),
            Op::Compact(..) => unreachable!(),
        }
        .map_err(|e| format!("a call failed: {e}"))?;
    }
    audit(exec, &sys, &creds, &mut secrets, false)?;
    // The same keyword has another token under other credentials.
    let n: BTreeSet<_> = sys.snap().et.keys().map(|t| <[u8; 32]>::from(*t)).collect();
    exec.state(codec::hash64(&(n.len(), sys.snap().ct.len())));
    Ok(())
}

/// A fault at any request, then the call is repeated or not, then other calls.
fn faulty(exec: &mut Exec, ops: &[Op], depth: usize) -> Result<(), String> {
    let names = universe();
    let mut w = World::new(&names.iter().map(String::as_str).collect::<Vec<_>>());
    w.sys.ctl.record_rows.set(true);
    let mut secrets = Secrets::default();
    let mut fx = w.sys.client();
    let victim = exec.choose(depth);
    for i in 0..depth {
        let op = exec.pick(ops).clone();
        note(&mut secrets, &op);
        if i != victim {
            exec.say(|| op.show());
            w.apply(exec, &fx, &op)?;
            continue;
        }
        let at = exec.choose(7);
        let fault = FAULTS[exec.choose(FAULTS.len())];
        let retry = exec.choose(3);
        exec.say(|| format!("{} with {fault:?} at request {at}", op.show()));
        let cur = w.cur();
        for attempt in 0..=1 {
            if attempt == 0 {
                w.sys.ctl.arm(&[(at, fault)]);
            } else {
                w.sys.ctl.arm(&[]);
                if retry == 0 {
                    break;
                }
                if retry == 2 {
                    // The process was restarted.
                    fx = w.sys.client();
                }
                exec.say(|| "the call is repeated".to_string());
            }
            let done = match &op {
                Op::Add(x) => run(ops::add(&fx, &cur, x)).is_some_and(|r| r.is_ok()),
                Op::Del(x) => run(ops::del(&fx, &cur, x)).is_some_and(|r| r.is_ok()),
                Op::Search(ks) => run(ops::search(&fx, &cur, ks)).is_some_and(|r| r.is_ok()),
                Op::Compact(..) => unreachable!(),
            };
            exec.transitions += 1;
            if done {
                break;
            }
        }
        w.sys.ctl.arm(&[]);
        // Not modelled: only what is sent matters here.
        w.model.live.clear();
        if let Ok(view) = codec::view(&w.sys.snap(), &cur, &w.universe) {
            w.model.live = view.live;
        }
    }
    audit(exec, &w.sys, &w.creds, &mut secrets, false)?;
    exec.state(w.digest());
    Ok(())
}

/// A compaction that fails or is interrupted, repeated, then other calls.
fn faulty_compaction(exec: &mut Exec, after: &[Op]) -> Result<(), String> {
    let names = universe();
    let mut w = World::new(&names.iter().map(String::as_str).collect::<Vec<_>>());
    w.sys.ctl.record_rows.set(true);
    let mut secrets = Secrets::default();
    let fx = w.sys.client();
    for op in alphabet().iter().filter(|o| matches!(o, Op::Add(_))) {
        note(&mut secrets, op);
        w.apply(exec, &fx, op)?;
    }
    let rate = [1.0, 0.35, 0.0][exec.choose(3)];
    let renew = [Renew::Label, Renew::Key, Renew::Both][exec.choose(3)];
    let at = exec.choose(9);
    let fault = FAULTS[exec.choose(FAULTS.len())];
    let old = w.cur();
    let new = w.next_cred(renew);
    w.sys.ctl.arm(&[(at, fault)]);
    exec.say(|| format!("compaction renewing {renew:?} at rate {rate} with {fault:?} at request {at}"));
    let first = run(ops::compact(&fx, &old, &new, rate));
    w.sys.ctl.arm(&[]);
    exec.transitions += 1;
    let ok = matches!(first, Some(Ok(())));
    let creds = vec![old.clone(), new.clone()];
    audit(exec, &w.sys, &creds, &mut secrets, true)?;
    // Then the clients carry on with the credentials that hold the content.
    let all = w.universe.iter().cloned().collect::<Vec<_>>();
    let holds = |c: &Cred| {
        go(ops::search(&fx, c, &all)).is_ok_and(|f| f.values().any(|s| !s.is_empty()))
    };
    let cur = if ok || (holds(&new) && !holds(&old)) { new } else { old };
    for _ in 0..2 {
        let op = exec.pick(after).clone();
        note(&mut secrets, &op);
        exec.say(|| op.show());
        exec.transitions += 1;
        let res = match &op {
            Op::Add(x) => go(ops::add(&fx, &cur, x)).map(|_| ()),
            Op::Del(x) => go(ops::del(&fx, &cur, x)).map(|_| ()),
            Op::Search(ks) => go(ops::search(&fx, &cur, ks)).map(|_| ()),
            Op::Compact(..) => unreachable!(),
        };
        res.map_err(|e| format!("a call failed: {e}"))?;
    }
    audit(exec, &w.sys, &creds, &mut secrets, true)?;
    exec.state(codec::digest(&w.sys.snap(), &creds, &w.universe));
    Ok(())
}

fn fresh_calls() -> Vec<(bool, Vec<Assoc>)> {
    let v = |s: &str| d(&format!("the data number {s}, rather long"));
    vec![
        (true, vec![a("a", v("1"))]),
        (false, vec![a("a", v("2"))]),
        (true, vec![a("a", v("1")), a("b", v("3"))]),
        (true, (0..6).map(|i| a("b", v(&i.to_string()))).collect()),
    ]
}

const STARTS: usize = 3;

fn start(w: &mut World, which: usize) -> Result<(), String> {
    let v = |s: &str| d(&format!("the data number {s}, rather long"));
    w.sys.ctl.record_rows.set(true);
    let fx = w.sys.client();
    if which >= 1 {
        w.add(&fx, &[a("a", v("0")), a("b", v("0"))])?;
    }
    if which >= 2 {
        w.compact(&fx, Renew::Label, 1.0, &Filter::KeepAll)?;
        w.del(&fx, &[a("a", v("0"))])?;
    }
    Ok(())
}

const KF3: &str = "KF3";

/// Rows sent by the writes that overlapped a compaction, for the chains the compaction did not rewrite: the
/// new entries of these chains ignore them (see KF1).
fn overlapped(
    sys: &Sys,
    before: &crate::sim::Snap,
    old: &Cred,
    new: &Cred,
    sent_before: usize,
    records: &[conc::Record],
) -> Result<HashSet<[u8; 32]>, String> {
    let compaction = records
        .iter()
        .find(|r| matches!(r.op, conc::TOp::Compact(..)))
        .ok_or("the compaction never ends")?;
    if !records.iter().any(|r| {
        r.task != compaction.task && !r.iv.before(&compaction.iv) && !compaction.iv.before(&r.iv)
    }) {
        return Ok(HashSet::new());
    }
    let kept: BTreeMap<_, _> =
        codec::decode(&sys.snap(), &new.key)?.entries.into_iter().map(|e| (e.kw_hash, e.seed)).collect();
    let mut next = HashSet::new();
    for e in codec::decode(before, &old.key)?.entries {
        if kept.get(&e.kw_hash) != Some(&e.seed) {
            continue;
        }
        let keys = codec::ct_keys(&e.seed);
        let mut t = e.last.unwrap_or(e.kw_hash);
        for _ in 0..20 {
            t = codec::ct_next(&keys, &t);
            next.insert(t);
        }
    }
    let sent = sys.ctl.sent.borrow();
    Ok(sent[sent_before..]
        .iter()
        .filter(|s| s.table == CT && next.contains(&s.token))
        .map(|s| s.token)
        .collect())
}

/// Concurrent writers, and a compaction at the given rate if any.
fn fresh_concurrent(
    exec: &mut Exec,
    tasks: usize,
    depth: usize,
    shared: bool,
    compaction: Option<&[f64]>,
    then: bool,
) -> Result<(), String> {
    let mut w = World::new(&["a", "b"]);
    let which = exec.choose(STARTS);
    start(&mut w, which)?;
    let c = w.cur();
    let mut creds = w.creds.clone();
    let mut secrets = Secrets::default();
    let calls = fresh_calls();
    let mut plans = (0..tasks)
        .map(|_| {
            (0..depth)
                .map(|_| {
                    let (add, assocs) = exec.pick(&calls).clone();
                    secrets.assocs(&assocs);
                    (c.clone(), conc::TOp::Write(add, assocs))
                })
                .collect::<Vec<_>>()
        })
        .collect::<Vec<_>>();
    if let Some(rates) = compaction {
        let rate = *exec.pick(rates);
        let new = w.next_cred(*exec.pick(&[Renew::Label, Renew::Key]));
        creds.push(new.clone());
        plans.push(vec![(c.clone(), conc::TOp::Compact(new, rate))]);
    }
    let clients = if shared {
        vec![w.sys.client()]
    } else {
        plans.iter().map(|_| w.sys.client()).collect::<Vec<_>>()
    };
    let ctl = w.sys.ctl.clone();
    let before = w.sys.snap();
    let sent_before = ctl.sent.borrow().len();
    let Some(records) = conc::run(exec, &ctl, &clients, &plans) else {
        return Ok(());
    };
    audit(exec, &w.sys, &creds, &mut secrets, compaction.is_some())?;
    if let Some((cred, calls)) = creds.last().filter(|_| then).map(|c| (c.clone(), fresh_calls())) {
        // The clients carry on under the new credentials.
        let reusable = overlapped(&w.sys, &before, &c, &cred, sent_before, &records)?;
        let (add, assocs) = exec.pick(&calls).clone();
        secrets.assocs(&assocs);
        exec.say(|| format!("then under the new credentials: {}", crate::model::show_assocs(&assocs)));
        exec.transitions += 1;
        // Refused when its rows are already stored.
        let ok = go(ops::write(&w.sys.client(), &cred, add, &assocs)).is_ok();
        if audit(exec, &w.sys, &creds, &mut secrets, true).is_err() {
            audit_but(exec, &w.sys, &creds, &mut secrets, true, &reusable)?;
            if !crate::KNOWN.get().is_some_and(|k| k.contains_key(KF3)) {
                return Err("a chain-row token is used twice".to_string());
            }
            exec.known(
                KF3,
                "a chain-row token is used twice: by a write overlapping a partial compaction, then by a \
                 write under the new credentials"
                    .to_string(),
            );
        } else if !ok && reusable.is_empty() {
            return Err("a write following the compaction fails".to_string());
        }
    }
    exec.state(codec::hash64(&(
        which,
        records.iter().map(|r| (r.task, r.iv)).collect::<Vec<_>>(),
        w.sys.snap().et.len(),
        w.sys.snap().ct.len(),
    )));
    Ok(())
}

/// Enough draws for a space of 32 bits to repeat.
fn many(exec: &mut Exec, log: u32) -> Result<(), String> {
    use cosmian_findex::Index;
    let what = exec.choose(4);
    vary_seed(exec, 1);
    let sys = Sys::new();
    sys.ctl.record_rows.set(true);
    let fx = sys.client();
    let c = Cred::new(0, "label-0");
    let mut secrets = Secrets::default();
    exec.transitions += 1;
    exec.state(what as u64);
    match what {
        0 => {
            let n = 1usize << (log + 3);
            exec.say(|| format!("{n} user keys, by two clients in turn"));
            let other = sys.client();
            let mut keys = HashSet::with_capacity(n);
            for i in 0..n {
                let k: [u8; 16] =
                    (*if i % 2 == 0 { &fx } else { &other }.keygen()).try_into().map_err(|_| "a key is not 16 bytes")?;
                if !keys.insert(k) {
                    return Err("the same user key is generated twice".to_string());
                }
            }
            exec.count("keys", n as u64);
            return Ok(());
        }
        1 | 2 => {
            let n = 1usize << log;
            // One keyword of many rows, or many keywords of one row.
            let assocs = dimension(if what == 1 { 1 } else { 2 }, n);
            exec.say(|| format!("{n} {}", DIMENSIONS[what]));
            for k in assocs.iter().take(1000) {
                secrets.assocs(std::slice::from_ref(k));
            }
            go(ops::add(&fx, &c, &assocs)).map_err(|e| format!("add failed: {e}"))?;
        }
        _ => {
            // Small calls: the same rows are written again and again.
            let n = 1usize << (log - 4);
            exec.say(|| format!("{n} additions then deletions of one association"));
            let assocs = [(kw("some keyword"), Iv::D(b"some data, again and again".to_vec()))];
            secrets.assocs(&assocs);
            let mut seeds = HashSet::new();
            for i in 0..n {
                // Another index each time: new chain seeds.
                let c = Cred { key: c.key, label: format!("label {i}").into_bytes() };
                go(ops::write(&fx, &c, i % 2 == 0, &assocs)).map_err(|e| format!("write failed: {e}"))?;
            }
            for e in codec::decode(&sys.snap(), &c.key)?.entries {
                if !seeds.insert(e.seed) {
                    return Err("two entries have the same chain seed".to_string());
                }
            }
        }
    }
    audit(exec, &sys, &[c], &mut secrets, false)
}

pub fn c15(thorough: bool) -> Check {
    let mut phases = Vec::new();
    for depth in 1..=if thorough { 5 } else { 4 } {
        let ops = alphabet();
        phases.push(Phase::new(
            &format!("histories-{depth}"),
            format!("all histories of {depth} calls over {}, one client", ops.len()),
            move |exec| fresh_history(exec, &ops, depth, 1),
        ));
    }
    for depth in 2..=if thorough { 4 } else { 3 } {
        for clients in [2, 0] {
            let ops = alphabet();
            phases.push(Phase::new(
                &format!("{}-{depth}", if clients == 2 { "two-clients" } else { "new-clients" }),
                format!(
                    "all histories of {depth} calls over {}, {}",
                    ops.len(),
                    if clients == 2 { "each by one of two clients" } else { "each by a new client" }
                ),
                move |exec| fresh_history(exec, &ops, depth, clients),
            ));
        }
    }
    for depth in 1..=if thorough { 3 } else { 2 } {
        let ops = alphabet().into_iter().filter(|o| !matches!(o, Op::Compact(..))).collect::<Vec<_>>();
        phases.push(Phase::new(
            &format!("indexes-{depth}"),
            format!(
                "all histories of {depth} calls over {} under any of 4 credentials in the same tables, by one \
                 of two clients",
                ops.len()
            ),
            move |exec| several(exec, depth, &ops),
        ));
    }
    {
        let depth = if thorough { 4 } else { 3 };
        let ops = vec![
            alphabet()[0].clone(),
            alphabet()[1].clone(),
            alphabet()[2].clone(),
            alphabet()[4].clone(),
            alphabet()[6].clone(),
        ];
        phases.push(Phase::new(
            "faults",
            format!(
                "all histories of {depth} calls over {}, a fault of 4 kinds at every request of any of them, \
                 the call being abandoned, repeated, or repeated by a new client",
                ops.len()
            ),
            move |exec| faulty(exec, &ops, depth),
        ));
    }
    {
        let ops = alphabet().into_iter().filter(|o| !matches!(o, Op::Compact(..))).collect::<Vec<_>>();
        phases.push(Phase::new(
            "faulty-compactions",
            "a fault of 4 kinds at every request of a compaction (3 rates, 3 renewals), then all pairs of calls"
                .to_string(),
            move |exec| faulty_compaction(exec, &ops),
        ));
    }
    phases.push(Phase::new(
        "writers-2x1",
        "2 clients, one call each over 4 calls, 3 initial contents, every schedule of their requests",
        |exec| fresh_concurrent(exec, 2, 1, false, None, false),
    ));
    phases.push(Phase::new(
        "writers-2x1-shared",
        "same, through the same client, without reduction of the schedules",
        |exec| fresh_concurrent(exec, 2, 1, true, None, false),
    ));
    phases.push(Phase::new(
        "writers-2x2",
        "2 clients, two calls each over 4 calls, 3 initial contents, every schedule of their requests",
        |exec| fresh_concurrent(exec, 2, 2, false, None, false),
    ));
    if thorough {
        phases.push(Phase::new(
            "writers-3x1",
            "3 clients, one call each over 4 calls, 3 initial contents, every schedule of their requests",
            |exec| fresh_concurrent(exec, 3, 1, false, None, false),
        ));
    }
    phases.push(Phase::new(
        "compaction-writer",
        "a compaction (3 rates, 2 renewals) and a client of two calls over 4 calls, 3 initial contents, \
         every schedule of their requests",
        |exec| fresh_concurrent(exec, 1, 2, false, Some(&[1.0, 0.35, 0.0]), false),
    ));
    phases.push(Phase::new(
        "compaction-writer-then",
        "a compaction (3 rates, 2 renewals) and a client of one call over 4 calls, 3 initial contents, \
         every schedule of their requests, then another call over 4 under the new credentials",
        |exec| fresh_concurrent(exec, 1, 1, false, Some(&[1.0, 0.35, 0.0]), true),
    ));
    {
        let seeds = if thorough { 64 } else { 16 };
        let depth = if thorough { 3 } else { 2 };
        let ops = alphabet();
        phases.push(Phase::new(
            "seeds",
            format!("all histories of {depth} calls x {seeds} seeds of the randomness"),
            move |exec| {
                vary_seed(exec, seeds);
                fresh_history(exec, &ops, depth, 1)
            },
        ));
    }
    {
        let log = if thorough { 18 } else { 17 };
        phases.push(Phase::new(
            "many-draws",
            format!(
                "2^{} user keys by two clients, 2^{log} rows of a keyword, 2^{log} keywords in a call, and 2^{} calls \
                 of one association under as many labels: no repetition",
                log + 3,
                log - 4
            ),
            move |exec| many(exec, log),
        ));
    }
    Check {
        id: "C15",
        level: "model_checking",
        rule: "a monitor compares all the nonces, ciphertexts and chain tokens sent in the execution, and looks \
               for any 8 bytes of a keyword, of its unkeyed hash, of a data, of a key or of a chain seed in what \
               is sent",
        assumptions: vec![
            "the random generator of the system is sound (its stream is supplied by the explorer)",
            "cryptographic primitives behave as specified",
        ],
        phases,
    }
}
