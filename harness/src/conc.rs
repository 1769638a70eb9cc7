//! Concurrent clients: recording of their calls under a schedule, and search of a sequential
//! explanation of what they observed.
use std::{
    cell::RefCell,
    collections::BTreeSet,
    future::Future,
    pin::Pin,
    rc::Rc,
};

use crate::{
    explore::Exec,
    model::{show, show_assocs, show_ivs, Assoc, Cred, Iv, Live},
    ops::{self, Cb, Found},
    sim::{run_tasks, timed, Bytes, Ctl, FErr, Fx, Grant, Interval, Scheduler, TaskEnd, Wait},
};

#[derive(Debug, Clone)]
pub enum TOp {
    Write(bool, Vec<Assoc>),
    Search(Vec<Bytes>),
    /// New credentials and rate.
    Compact(Cred, f64),
}

impl TOp {
    pub fn show(&self) -> String {
        match self {
            Self::Write(true, a) => format!("add [{}]", show_assocs(a)),
            Self::Write(false, a) => format!("delete [{}]", show_assocs(a)),
            Self::Search(k) => format!(
                "search [{}]",
                k.iter().map(|k| show(k)).collect::<Vec<_>>().join(", ")
            ),
            Self::Compact(c, r) => format!("compact to {} at rate {r}", c.show()),
        }
    }
}

pub enum Res {
    Wrote(Result<BTreeSet<Bytes>, FErr>),
    Searched(Vec<Live>, Result<Found, FErr>),
    Compacted(Result<(), FErr>),
}

pub struct Record {
    pub task: usize,
    pub cred: Cred,
    pub op: TOp,
    pub iv: Interval,
    pub res: Res,
}

impl Record {
    pub fn show(&self) -> String {
        let r = match &self.res {
            Res::Wrote(Ok(n)) => format!("new: {}", crate::model::show_set(n)),
            Res::Wrote(Err(e)) => format!("error: {e}"),
            Res::Searched(rounds, r) => format!(
                "{} rounds: {} -> {}",
                rounds.len(),
                rounds
                    .iter()
                    .map(|r| r
                        .iter()
                        .map(|(k, s)| format!("{}={}", show(k), show_ivs(s)))
                        .collect::<Vec<_>>()
                        .join(" "))
                    .collect::<Vec<_>>()
                    .join(" | "),
                r.as_ref().map_or_else(|e| format!("error: {e}"), |_| "ok".to_string())
            ),
            Res::Compacted(r) => format!("{r:?}"),
        };
        format!("[{}, {}] client {} {} : {r}", self.iv.inv, self.iv.resp, self.task, self.op.show())
    }
}

impl Record {
    /// Copy of the record of an acknowledged write.
    pub fn copy_write(&self) -> Self {
        Self {
            task: self.task,
            cred: self.cred.clone(),
            op: self.op.clone(),
            iv: self.iv,
            res: match &self.res {
                Res::Wrote(Ok(n)) => Res::Wrote(Ok(n.clone())),
                _ => Res::Wrote(Ok(BTreeSet::new())),
            },
        }
    }
}

pub async fn body(ctl: Rc<Ctl>, fx: &Fx, task: usize, plan: Vec<(Cred, TOp)>, out: Rc<RefCell<Vec<Record>>>) {
    for (cred, op) in plan {
        let (res, iv) = match &op {
            TOp::Write(add, assocs) => {
                let (r, iv) = timed(&ctl, ops::write(fx, &cred, *add, assocs)).await;
                (Res::Wrote(r), iv)
            }
            TOp::Search(kws) => {
                let rounds = Rc::new(RefCell::new(Vec::new()));
                let (r, iv) =
                    timed(&ctl, ops::search_rounds(fx, &cred, kws, &rounds, |_| Cb::Continue)).await;
                let rounds = rounds.borrow().clone();
                (Res::Searched(rounds, r), iv)
            }
            TOp::Compact(new, rate) => {
                let (r, iv) = timed(&ctl, ops::compact(fx, &cred, new, *rate)).await;
                (Res::Compacted(r), iv)
            }
        };
        out.borrow_mut().push(Record {
            task,
            cred,
            op,
            iv,
            res,
        });
    }
}

/// Serves the requests in every order. With `reduce`, one order only is explored among those that differ
/// by the order of commuting requests (sleep sets): requests on other tables or rows, and reads, commute,
/// unless their order decides that an operation is answered before another one begins.
pub struct Orders<'a> {
    pub exec: &'a mut Exec,
    pub reduce: bool,
    /// Requests whose turn was explored before, and that nothing conflicts with since.
    sleep: Vec<Wait>,
    /// Earlier alternatives of the last choice.
    siblings: Vec<Wait>,
    pub order: Vec<Wait>,
    /// How requests are served.
    #[allow(clippy::type_complexity)]
    pub grant: Box<dyn FnMut(&mut Exec, &Wait) -> Grant + 'a>,
}

impl<'a> Orders<'a> {
    pub fn new(exec: &'a mut Exec, reduce: bool) -> Self {
        Self {
            exec,
            reduce,
            sleep: Vec::new(),
            siblings: Vec::new(),
            order: Vec::new(),
            grant: Box::new(|_, _| Grant::Serve),
        }
    }
}

impl Scheduler for Orders<'_> {
    fn pick(&mut self, waiting: &[Wait]) -> Option<(usize, Grant)> {
        let awake: Vec<usize> = (0..waiting.len())
            .filter(|i| !self.sleep.iter().any(|s| s.task == waiting[*i].task))
            .collect();
        if awake.is_empty() {
            return None;
        }
        let c = if awake.len() == 1 { 0 } else { self.exec.choose(awake.len()) };
        self.siblings = if self.reduce {
            awake[..c].iter().map(|i| waiting[*i].clone()).collect()
        } else {
            Vec::new()
        };
        let i = awake[c];
        let grant = (self.grant)(self.exec, &waiting[i]);
        if grant != Grant::Serve {
            // A fault is not the event the siblings were compared with.
            self.siblings.clear();
            self.sleep.clear();
        }
        self.order.push(waiting[i].clone());
        Some((i, grant))
    }

    fn served(&mut self, request: &Wait, ended: bool) {
        let mut sleep = std::mem::take(&mut self.sleep);
        sleep.append(&mut self.siblings);
        sleep.retain(|s| {
            // `s` could end its operation: conservative.
            s.commutes(request) && !(request.first) && !(ended && s.first)
        });
        self.sleep = sleep;
    }
}

/// Runs the plans, one task each, under every schedule of their storage requests. Task `i` uses client
/// `i % clients.len()`. `None`: this schedule is equivalent to another one.
pub fn run(
    exec: &mut Exec,
    ctl: &Rc<Ctl>,
    clients: &[Fx],
    plans: &[Vec<(Cred, TOp)>],
) -> Option<Vec<Record>> {
    run_faulty(exec, ctl, clients, plans, 0, &[], &[]).map(|r| r.records)
}

pub struct Run {
    pub records: Vec<Record>,
    pub fired: Vec<(Wait, Grant)>,
    /// Requests in the order they were served.
    pub order: Vec<Wait>,
    /// Logical time before the first one; request `i` is served at `base + i + 1`.
    pub base: u64,
}

impl Run {
    /// Times at which a call sent such requests.
    pub fn times(&self, r: &Record, table: u8, kind: crate::sim::Kind) -> Vec<u64> {
        self.order
            .iter()
            .enumerate()
            .map(|(i, w)| (self.base + i as u64 + 1, w))
            .filter(|(t, w)| {
                w.task == r.task && w.table == table && w.kind == kind && r.iv.inv <= *t && *t <= r.iv.resp
            })
            .map(|(t, _)| t)
            .collect()
    }
}

/// Same, with up to `budget` faults at the requests of these tasks. An interrupted call is not in the
/// records.
pub fn run_faulty(
    exec: &mut Exec,
    ctl: &Rc<Ctl>,
    clients: &[Fx],
    plans: &[Vec<(Cred, TOp)>],
    budget: usize,
    targets: &[usize],
    faults: &[Grant],
) -> Option<Run> {
    let base = ctl.clock.get();
    let out = Rc::new(RefCell::new(Vec::new()));
    let tasks: Vec<Pin<Box<dyn Future<Output = ()> + '_>>> = plans
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let fx = &clients[i % clients.len()];
            Box::pin(body(ctl.clone(), fx, i, p.clone(), out.clone()))
                as Pin<Box<dyn Future<Output = ()> + '_>>
        })
        .collect();
    for (i, p) in plans.iter().enumerate() {
        for (c, op) in p {
            exec.say(|| format!("plan of client {i}: ({}) {}", c.show(), op.show()));
        }
    }
    // Clients sharing an instance could share more than the storage: nothing commutes then.
    let reduce = clients.len() >= plans.len();
    let fired = Rc::new(RefCell::new(Vec::new()));
    let mut orders = Orders::new(exec, reduce);
    if budget > 0 {
        let (fired, targets, faults) = (fired.clone(), targets.to_vec(), faults.to_vec());
        orders.grant = Box::new(move |exec, w| {
            let mut fired = fired.borrow_mut();
            if fired.len() >= budget || !targets.contains(&w.task) {
                return Grant::Serve;
            }
            match exec.choose(1 + faults.len()) {
                0 => Grant::Serve,
                c => {
                    fired.push((w.clone(), faults[c - 1]));
                    faults[c - 1]
                }
            }
        });
    }
    let ends = run_tasks(ctl, tasks, &mut orders);
    let order = std::mem::take(&mut orders.order);
    drop(orders);
    let fired = fired.borrow().clone();
    exec.transitions += order.len() as u64;
    let Some(ends) = ends else {
        exec.count("equivalent_schedules_cut", 1);
        return None;
    };
    assert!(budget > 0 || ends.iter().all(|e| matches!(e, TaskEnd::Done(()))));
    for (w, g) in &fired {
        exec.say(|| format!("fault: {g:?} at request {:?} of client {}", w.kind, w.task));
    }
    exec.count("schedules", 1);
    exec.say(|| {
        format!(
            "schedule: {}",
            order
                .iter()
                .map(|w| format!(
                    "{}:{}{:?}",
                    w.task,
                    if w.table == 0 { "ET" } else { "CT" },
                    w.kind
                ))
                .collect::<Vec<_>>()
                .join(" ")
        )
    });
    let out = std::mem::take(&mut *out.borrow_mut());
    for r in &out {
        exec.say(|| r.show());
    }
    Some(Run {
        records: out,
        fired,
        order,
        base,
    })
}

/// A write, restricted to one keyword.
#[derive(Debug, Clone)]
pub struct W {
    pub iv: Interval,
    pub add: bool,
    pub values: BTreeSet<Iv>,
}

/// What was seen of one keyword.
#[derive(Debug, Clone)]
pub struct Obs {
    pub iv: Interval,
    /// Observations with the same number follow each other in one search.
    pub search: usize,
    pub round: usize,
    pub set: BTreeSet<Iv>,
}

fn apply(initial: &BTreeSet<Iv>, writes: &[W], order: &[usize], subset: u32) -> BTreeSet<Iv> {
    let mut s = initial.clone();
    for &i in order {
        if subset >> i & 1 == 1 {
            if writes[i].add {
                s.extend(writes[i].values.iter().cloned());
            } else {
                for v in &writes[i].values {
                    s.remove(v);
                }
            }
        }
    }
    s
}

fn permutations(n: usize, ok: &dyn Fn(&[usize], usize) -> bool, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    fn rec(
        n: usize,
        cur: &mut Vec<usize>,
        ok: &dyn Fn(&[usize], usize) -> bool,
        f: &mut dyn FnMut(&[usize]) -> bool,
    ) -> bool {
        if cur.len() == n {
            return f(cur);
        }
        for i in 0..n {
            if !cur.contains(&i) && ok(cur, i) {
                cur.push(i);
                if rec(n, cur, ok, f) {
                    return true;
                }
                cur.pop();
            }
        }
        false
    }
    rec(n, &mut Vec::new(), ok, f)
}

/// Looks for an order of the writes, compatible with real time, that explains every observation and the
/// final content.
pub fn explain(
    initial: &BTreeSet<Iv>,
    writes: &[W],
    obs: &[Obs],
    last: Option<&BTreeSet<Iv>>,
) -> bool {
    let all = (1u32 << writes.len()) - 1;
    // Subsets each observation may see, whatever the order.
    let bounds: Vec<(u32, u32)> = obs
        .iter()
        .map(|o| {
            let mut must = 0;
            let mut may = 0;
            for (i, w) in writes.iter().enumerate() {
                if w.iv.before(&o.iv) {
                    must |= 1 << i;
                }
                if !o.iv.before(&w.iv) {
                    may |= 1 << i;
                }
            }
            (must, may)
        })
        .collect();
    // Observation j must see at least what i saw.
    let follows = |i: usize, j: usize| {
        obs[i].iv.before(&obs[j].iv)
            || (obs[i].search == obs[j].search && obs[i].round < obs[j].round)
    };
    permutations(
        writes.len(),
        &|cur, i| {
            // Every write answered before this one began is already placed.
            writes
                .iter()
                .enumerate()
                .all(|(j, w)| j == i || cur.contains(&j) || !w.iv.before(&writes[i].iv))
        },
        &mut |order| {
            if let Some(last) = last {
                if apply(initial, writes, order, all) != *last {
                    return false;
                }
            }
            fn rec(
                k: usize,
                seen: &mut Vec<u32>,
                obs: &[Obs],
                bounds: &[(u32, u32)],
                follows: &dyn Fn(usize, usize) -> bool,
                fits: &dyn Fn(usize, u32) -> bool,
            ) -> bool {
                if k == obs.len() {
                    return true;
                }
                let (must, may) = bounds[k];
                let free = may & !must;
                let mut sub = free;
                loop {
                    let s = must | sub;
                    let ordered = (0..k).all(|i| {
                        (!follows(i, k) || seen[i] & !s == 0) && (!follows(k, i) || s & !seen[i] == 0)
                    });
                    if ordered && fits(k, s) {
                        seen.push(s);
                        if rec(k + 1, seen, obs, bounds, follows, fits) {
                            return true;
                        }
                        seen.pop();
                    }
                    if sub == 0 {
                        return false;
                    }
                    sub = (sub - 1) & free;
                }
            }
            rec(0, &mut Vec::new(), obs, &bounds, &follows, &|k, s| {
                apply(initial, writes, order, s) == obs[k].set
            })
        },
    )
}

/// Writes of a keyword under some credentials.
pub fn writes_of(records: &[Record], cred: &Cred, k: &Bytes) -> Vec<W> {
    records
        .iter()
        .filter(|r| r.cred == *cred)
        .filter_map(|r| match &r.op {
            TOp::Write(add, a) => {
                let values: BTreeSet<Iv> =
                    a.iter().filter(|(k2, _)| k2 == k).map(|(_, v)| v.clone()).collect();
                (!values.is_empty()).then_some(W {
                    iv: r.iv,
                    add: *add,
                    values,
                })
            }
            _ => None,
        })
        .collect()
}

pub fn obs_of(records: &[Record], cred: &Cred, k: &Bytes) -> Vec<Obs> {
    let mut res = Vec::new();
    for (n, r) in records.iter().enumerate() {
        if r.cred != *cred {
            continue;
        }
        if let (TOp::Search(kws), Res::Searched(rounds, _)) = (&r.op, &r.res) {
            let mut seen = false;
            for (i, round) in rounds.iter().enumerate() {
                if let Some(s) = round.get(k) {
                    seen = true;
                    res.push(Obs {
                        iv: r.iv,
                        search: n,
                        round: i,
                        set: s.clone(),
                    });
                }
            }
            // A requested keyword that no round reports was seen empty.
            if !seen && kws.contains(k) {
                res.push(Obs {
                    iv: r.iv,
                    search: n,
                    round: 0,
                    set: BTreeSet::new(),
                });
            }
        }
    }
    res
}

/// Every call of the records succeeded.
pub fn all_ok(records: &[Record]) -> Result<(), String> {
    for r in records {
        let e = match &r.res {
            Res::Wrote(Err(e)) => e,
            Res::Searched(_, Err(e)) => e,
            Res::Compacted(Err(e)) => e,
            _ => continue,
        };
        return Err(format!("{} of client {} failed: {e}", r.op.show(), r.task));
    }
    Ok(())
}

/// Each keyword introduced by these writes is reported new by exactly one of them.
pub fn check_new(
    records: &[Record],
    cred: &Cred,
    present: &BTreeSet<Bytes>,
) -> Result<(), String> {
    let mut touched = BTreeSet::new();
    let mut reported: Vec<&Bytes> = Vec::new();
    for r in records.iter().filter(|r| r.cred == *cred) {
        if let (TOp::Write(_, a), Res::Wrote(Ok(new))) = (&r.op, &r.res) {
            let own: BTreeSet<&Bytes> = a.iter().map(|(k, _)| k).collect();
            for k in new {
                if !own.contains(k) {
                    return Err(format!("{} reports {} it was not given", r.op.show(), show(k)));
                }
                reported.push(k);
            }
            touched.extend(own.into_iter().cloned());
        }
    }
    for k in &touched {
        let n = reported.iter().filter(|r| **r == k).count();
        let want = usize::from(!present.contains(k));
        if n != want {
            return Err(format!("{} is reported new {n} times instead of {want}", show(k)));
        }
    }
    Ok(())
}

/// Explains what was seen of each keyword (searches and final content).
pub fn check_keywords(
    exec: &mut Exec,
    records: &[Record],
    cred: &Cred,
    initial: &Live,
    last: &Live,
    universe: &BTreeSet<Bytes>,
    with_searches: bool,
) -> Result<(), String> {
    let none = BTreeSet::new();
    for k in universe {
        let writes = writes_of(records, cred, k);
        let obs = if with_searches {
            obs_of(records, cred, k)
        } else {
            Vec::new()
        };
        let init = initial.get(k).unwrap_or(&none);
        let end = last.get(k).unwrap_or(&none);
        exec.validated += 1;
        if !explain(init, &writes, &obs, Some(end)) {
            let what = if explain(init, &writes, &[], Some(end)) {
                format!(
                    "no sequential order of the writes explains what the searches saw of {}: {}",
                    show(k),
                    obs.iter()
                        .map(|o| format!("[{}, {}] {}", o.iv.inv, o.iv.resp, show_ivs(&o.set)))
                        .collect::<Vec<_>>()
                        .join(" ; ")
                )
            } else {
                format!(
                    "no sequential order of the writes leaves {} in {} (initially {})",
                    show_ivs(end),
                    show(k),
                    show_ivs(init)
                )
            };
            return Err(what);
        }
    }
    Ok(())
}

/// The answer of a search is what follows from the rounds it reported.
pub fn check_answers(records: &[Record]) -> Result<(), String> {
    for r in records {
        if let (TOp::Search(kws), Res::Searched(rounds, Ok(found))) = (&r.op, &r.res) {
            let mut known = Live::new();
            for round in rounds {
                for (k, s) in round {
                    known.insert(k.clone(), s.clone());
                }
            }
            if found.len() != kws.iter().collect::<BTreeSet<_>>().len() {
                return Err("a search does not answer for what was requested".to_string());
            }
            for k in kws {
                let want = crate::model::data_of(&known, &crate::model::reachable(&known, k));
                if found.get(k) != Some(&want) {
                    return Err(format!(
                        "the answer for {} does not follow from what was read",
                        show(k)
                    ));
                }
            }
        }
    }
    Ok(())
}

/// Runs plans (one per thread) under every schedule of the lock operations of the in-memory store.
pub fn run_threads(
    exec: &mut Exec,
    sys: &crate::sim::Sys,
    plans: &[Vec<(Cred, TOp)>],
) -> Result<Vec<Record>, String> {
    use std::sync::Arc;
    struct Plain(usize, Cred, TOp, Interval, PlainRes);
    enum PlainRes {
        Wrote(Result<BTreeSet<Bytes>, String>),
        Searched(Vec<Live>, Result<Found, String>),
        Compacted(Result<(), String>),
    }
    for (i, p) in plans.iter().enumerate() {
        for (c, op) in p {
            exec.say(|| format!("plan of thread {i}: ({}) {}", c.show(), op.show()));
        }
    }
    let seed = exec.seed;
    let bodies: Vec<Box<dyn FnOnce() -> Vec<Plain> + Send>> = plans
        .iter()
        .enumerate()
        .map(|(t, plan)| {
            let (et, ct) = (Arc::clone(&sys.et), Arc::clone(&sys.ct));
            let plan = plan.clone();
            Box::new(move || {
                let sys = crate::sim::Sys::share(et, ct);
                let fx = sys.client();
                let mut res = Vec::new();
                for (cred, op) in plan {
                    crate::threads::begin();
                    let r = match &op {
                        TOp::Write(add, a) => PlainRes::Wrote(
                            crate::sim::go(ops::write(&fx, &cred, *add, a)).map_err(|e| e.to_string()),
                        ),
                        TOp::Search(kws) => {
                            let rounds = Rc::new(RefCell::new(Vec::new()));
                            let r = crate::sim::go(ops::search_rounds(&fx, &cred, kws, &rounds, |_| {
                                Cb::Continue
                            }))
                            .map_err(|e| e.to_string());
                            let rounds = rounds.borrow().clone();
                            PlainRes::Searched(rounds, r)
                        }
                        TOp::Compact(new, rate) => PlainRes::Compacted(
                            crate::sim::go(ops::compact(&fx, &cred, new, *rate))
                                .map_err(|e| e.to_string()),
                        ),
                    };
                    let (inv, resp) = crate::threads::end();
                    res.push(Plain(t, cred, op, Interval { inv, resp }, r));
                }
                res
            }) as Box<dyn FnOnce() -> Vec<Plain> + Send>
        })
        .collect();
    let done = crate::threads::run(exec, seed, bodies)?;
    let err = |e: String| FErr::Crypto(e);
    let records: Vec<Record> = done
        .results
        .into_iter()
        .flatten()
        .map(|Plain(task, cred, op, iv, r)| Record {
            task,
            cred,
            op,
            iv,
            res: match r {
                PlainRes::Wrote(r) => Res::Wrote(r.map_err(err)),
                PlainRes::Searched(l, r) => Res::Searched(l, r.map_err(err)),
                PlainRes::Compacted(r) => Res::Compacted(r.map_err(err)),
            },
        })
        .collect();
    for r in &records {
        exec.say(|| r.show());
    }
    Ok(records)
}
