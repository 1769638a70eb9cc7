//! C09 (adds and deletes), C10 (compactions), C18 (errors): faults at every storage request.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    future::Future,
    pin::Pin,
    rc::Rc,
};

use cosmian_findex::Error;

use super::{
    common::{
        check_exact, half, read, sized, sized_text, sizes_to, vary_seed, volume, volume_world, Filter, Renew, World,
        VOLUMES, VOLUMES_TEXT,
    },
    marathon, Check,
};
use crate::{
    codec,
    conc::{self, TOp},
    explore::{Exec, Phase},
    model::{a, d, kw, p, show, show_assocs, show_ivs, Assoc, Cred, Iv, Model},
    ops::{self, Cb},
    sim::{go, run_tasks, Bytes, Ctl, FErr, Fx, Grant, Kind, SimErr, Snap, TaskEnd, Wait, ET, FAULTS},
};

/// Outcome of an operation some requests of which may not be served normally.
pub struct Ran<T> {
    pub end: TaskEnd<T>,
    pub faults: Vec<(usize, Grant)>,
    pub requests: usize,
}

/// Runs an operation; at each request, up to `budget` times, explores the given faults.
pub fn faulty<'a, T>(
    exec: &mut Exec,
    ctl: &Ctl,
    fut: impl Future<Output = T> + 'a,
    budget: usize,
    kinds: &[Grant],
) -> Ran<T> {
    let mut faults = Vec::new();
    let mut n = 0;
    let task: Pin<Box<dyn Future<Output = T> + 'a>> = Box::pin(fut);
    let ends = run_tasks(ctl, vec![task], &mut |w: &[Wait]| {
        let mut g = Grant::Serve;
        if faults.len() < budget {
            let c = exec.choose(1 + kinds.len());
            if c > 0 {
                g = kinds[c - 1];
                exec.say(|| {
                    format!(
                        "request {n} ({} {:?}): {g:?}",
                        if w[0].table == ET { "ET" } else { "CT" },
                        w[0].kind
                    )
                });
                faults.push((n, g));
            }
        }
        n += 1;
        (0, g)
    })
    .expect("never stopped");
    exec.transitions += n as u64;
    exec.evals += 1;
    exec.nontrivial += u64::from(!faults.is_empty());
    Ran {
        end: ends.into_iter().next().expect("one task"),
        faults,
        requests: n,
    }
}

/// Same, with this fault at most.
pub fn faulty_at<'a, T>(
    exec: &mut Exec,
    ctl: &Ctl,
    fut: impl Future<Output = T> + 'a,
    fault: Option<(usize, Grant)>,
) -> Ran<T> {
    let mut faults = Vec::new();
    let mut requests = 0;
    let task: Pin<Box<dyn Future<Output = T> + 'a>> = Box::pin(fut);
    let ends = run_tasks(ctl, vec![task], &mut |_: &[Wait]| {
        let g = fault.filter(|(n, _)| *n == requests).map_or(Grant::Serve, |(_, g)| g);
        if g != Grant::Serve {
            faults.push((requests, g));
        }
        requests += 1;
        (0, g)
    })
    .expect("never stopped");
    exec.transitions += requests as u64;
    exec.evals += 1;
    exec.nontrivial += u64::from(!faults.is_empty());
    Ran {
        end: ends.into_iter().next().expect("one task"),
        faults,
        requests,
    }
}

pub fn universe(w: &World) -> Vec<Bytes> {
    w.universe.iter().cloned().collect()
}

fn show_end<T>(end: &TaskEnd<Result<T, FErr>>) -> String {
    match end {
        TaskEnd::Done(Ok(_)) => "it succeeds".into(),
        TaskEnd::Done(Err(e)) => format!("it fails: {e}"),
        TaskEnd::Died => "it is interrupted".into(),
    }
}

/// Initial contents.
fn initial(which: usize) -> Result<World, String> {
    let mut w = World::new(&["a", "b", "c"]);
    let fx = w.sys.client();
    match which {
        0 => (),
        1 => {
            w.add(&fx, &[a("a", d("0")), a("a", p("b")), a("b", d("1"))])?;
        }
        2 => {
            w.add(&fx, &[a("a", d("0")), a("a", d("1")), a("b", p("a"))])?;
            w.del(&fx, &[a("a", d("1"))])?;
            w.add(&fx, &[a("a", d("a value that needs more than a single link to be stored, and then some more"))])?;
        }
        _ => {
            w.add(&fx, &[a("a", d("0")), a("b", d("0")), a("b", p("c")), a("c", d("2"))])?;
            w.compact(&fx, Renew::Both, 1.0, &Filter::KeepAll)?;
            w.add(&fx, &[a("a", d("3"))])?;
            w.del(&fx, &[a("b", d("0"))])?;
        }
    }
    Ok(w)
}

fn writes(thorough: bool) -> Vec<(bool, Vec<Assoc>)> {
    let long = "a value that needs more than a single link to be stored: 80 bytes, or 5 blocks.";
    let mut v = vec![
        (true, vec![a("a", d("x"))]),
        (true, vec![a("a", d("x")), a("b", d("y")), a("c", p("a"))]),
        (true, vec![a("a", d(long)), a("a", d(&long.repeat(2))), a("b", d(long))]),
        (false, vec![a("a", d("0"))]),
        (false, vec![a("a", d("0")), a("b", d("1")), a("b", d("0")), a("c", d("2"))]),
    ];
    if thorough {
        v.push((true, vec![a("c", d("x"))]));
        v.push((true, vec![a("a", d("0"))]));
        v.push((false, vec![a("a", p("b")), a("b", p("a"))]));
        v.push((false, vec![a("c", d("absent"))]));
    }
    v
}

/// Model of a write.
fn apply(m: &mut Model, add: bool, x: &[Assoc]) {
    if add {
        m.add(x);
    } else {
        m.del(x);
    }
}

/// The index holds exactly this.
pub fn holds(fx: &Fx, cred: &Cred, m: &Model, kws: &[Bytes]) -> bool {
    let Ok((live, found)) = read(fx, cred, kws) else {
        return false;
    };
    let mut want = m.live.clone();
    want.retain(|_, s| !s.is_empty());
    live == want && super::common::compare(m, kws, &found).is_ok()
}

// C09 -------------------------------------------------------------------------------------------

/// Operations following a fault.
fn follow(exec: &mut Exec, w: &mut World, fx: &Fx, retry: &(bool, Vec<Assoc>)) -> Result<bool, String> {
    let c = exec.choose(7);
    match c {
        0 => return Ok(false),
        1 => {
            exec.say(|| "then the call is repeated".into());
            go(ops::write(fx, &w.cur(), retry.0, &retry.1))
                .map_err(|e| format!("the repeated call failed: {e}"))?;
            apply(&mut w.model, retry.0, &retry.1);
        }
        2 => {
            exec.say(|| "then another add".into());
            w.add(fx, &[a("a", d("later")), a("c", d("later")), a("b", p("c"))])?;
        }
        3 => {
            exec.say(|| "then a delete".into());
            w.del(fx, &[a("a", d("x")), a("a", d("0")), a("b", d("1"))])?;
        }
        _ => {
            let rate = [1.0, 0.0, 0.4][c - 4];
            exec.say(|| format!("then a compaction at rate {rate}"));
            w.compact(fx, if c == 5 { Renew::Both } else { Renew::Label }, rate, &Filter::KeepAll)?;
        }
    }
    exec.transitions += 1;
    Ok(true)
}

fn c09_exec(
    exec: &mut Exec,
    inits: usize,
    writes: &[(bool, Vec<Assoc>)],
    budget: usize,
    follows: usize,
) -> Result<(), String> {
    let init = exec.choose(inits);
    exec.say(|| format!("initial content {init}"));
    let w = initial(init)?;
    let op = exec.pick(writes).clone();
    exec.say(|| format!("{} [{}]", if op.0 { "add" } else { "delete" }, show_assocs(&op.1)));
    c09_write(exec, w, op, budget, follows)
}

/// Content of a volume, and a call over it.
fn big_write(exec: &mut Exec) -> Result<(World, (bool, Vec<Assoc>)), String> {
    let which = exec.choose(VOLUMES);
    exec.say(|| format!("volume {which}"));
    write_of(exec, volume(which))
}

/// An add or a delete of these associations, and what is stored before.
fn write_of(exec: &mut Exec, all: Vec<Assoc>) -> Result<(World, (bool, Vec<Assoc>)), String> {
    let mut w = volume_world(&all);
    let fx = w.sys.client();
    let (init, add, x) = match exec.choose(4) {
        0 => (vec![], true, all),
        1 => (half(&all), true, all),
        2 => (all.clone(), false, half(&all)),
        _ => (all.clone(), false, all),
    };
    exec.say(|| {
        format!(
            "{} associations stored, then {} of {}",
            init.len(),
            if add { "add" } else { "delete" },
            x.len()
        )
    });
    w.add(&fx, &init)?;
    Ok((w, (add, x)))
}

fn c09_write(
    exec: &mut Exec,
    mut w: World,
    op: (bool, Vec<Assoc>),
    budget: usize,
    follows: usize,
) -> Result<(), String> {
    let fx = w.sys.client();
    let cred = w.cur();
    let all = universe(&w);
    let ran = faulty(
        exec,
        &w.sys.ctl.clone(),
        ops::write(&fx, &cred, op.0, &op.1),
        budget,
        &FAULTS,
    );
    exec.say(|| show_end(&ran.end));
    let before = w.model.clone();
    let mut after = before.clone();
    apply(&mut after, op.0, &op.1);
    // Any client, including the one that failed.
    let fx2 = if exec.flag() { w.sys.client() } else { fx };
    let done = matches!(ran.end, TaskEnd::Done(Ok(_)));
    if holds(&fx2, &cred, &after, &all) {
        w.model = after;
    } else if done || !holds(&fx2, &cred, &before, &all) {
        let what = if done { "a success" } else { "a failure" };
        check_exact(exec, &fx2, &cred, if done { &after } else { &before }, &all)
            .map_err(|e| format!("after {what}: {e} (the content is neither the one before nor the one after)"))?;
        return Err("the content is read inconsistently".into());
    }
    exec.validated += 1;
    exec.outcome(u64::from(done) | u64::from(w.model == before) << 1);
    exec.state(w.digest());
    for _ in 0..follows {
        if !follow(exec, &mut w, &fx2, &op)? {
            break;
        }
        check_exact(exec, &fx2, &w.cur(), &w.model, &all)?;
        exec.state(w.digest());
    }
    Ok(())
}

/// Writers overlapping a call that fails or is interrupted: per keyword, all or nothing.
fn c09_overlap(exec: &mut Exec, op: (bool, Vec<Assoc>), others: Vec<Vec<TOp>>) -> Result<(), String> {
    let w = initial(1)?;
    let cred = w.cur();
    let mut plans: Vec<Vec<(Cred, TOp)>> = vec![vec![(cred.clone(), TOp::Write(op.0, op.1.clone()))]];
    plans.extend(
        others
            .into_iter()
            .map(|p| p.into_iter().map(|o| (cred.clone(), o)).collect()),
    );
    // By clients of their own, or by the same one.
    let shared = plans.iter().map(Vec::len).sum::<usize>() == 2 && exec.flag();
    let clients: Vec<Fx> = plans[usize::from(shared)..].iter().map(|_| w.sys.client()).collect();
    let Some(conc::Run { records, fired, .. }) =
        conc::run_faulty(exec, &w.sys.ctl, &clients, &plans, 1, &[0], &FAULTS)
    else {
        return Ok(());
    };
    exec.evals += 1;
    exec.nontrivial += u64::from(!fired.is_empty());
    let fx = w.sys.client();
    let kws = universe(&w);
    let (last, _) = read(&fx, &cred, &kws)?;
    let ok: Vec<conc::Record> = records;
    for r in ok.iter().filter(|r| r.task != 0) {
        conc::all_ok(std::slice::from_ref(r))?;
    }
    let faulted = !ok.iter().any(|r| r.task == 0 && conc::all_ok(std::slice::from_ref(r)).is_ok());
    let none = BTreeSet::new();
    for k in &kws {
        exec.validated += 1;
        let acked: Vec<conc::Record> = ok
            .iter()
            .filter(|r| r.task != 0 || !faulted)
            .map(conc::Record::copy_write)
            .collect();
        let start = w.model.live.get(k).unwrap_or(&none);
        let end = last.get(k).unwrap_or(&none);
        let without = conc::writes_of(&acked, &cred, k);
        if conc::explain(start, &without, &[], Some(end)) {
            continue;
        }
        let mut with = without.clone();
        let values: BTreeSet<_> =
            op.1.iter().filter(|(k2, _)| k2 == k).map(|(_, v)| v.clone()).collect();
        if faulted && !values.is_empty() {
            // It may take effect at any time after it began.
            with.push(conc::W {
                iv: crate::sim::Interval { inv: 0, resp: u64::MAX },
                add: op.0,
                values,
            });
            if conc::explain(start, &with, &[], Some(end)) {
                continue;
            }
        }
        return Err(format!("{} holds {}, which no order of the calls explains", show(k), show_ivs(end)));
    }
    exec.state(w.digest());
    // Still usable.
    let mut m = Model { live: last };
    let more = [a("a", d("after")), a("b", d("after"))];
    go(ops::add(&fx, &cred, &more)).map_err(|e| format!("a later add failed: {e}"))?;
    m.add(&more);
    check_exact(exec, &fx, &cred, &m, &kws)?;
    let mut new = cred.clone();
    new.label = b"after".to_vec();
    go(ops::compact(&fx, &cred, &new, 1.0)).map_err(|e| format!("a later compact failed: {e}"))?;
    check_exact(exec, &fx, &new, &m, &kws)
}

pub fn c09(thorough: bool) -> Check {
    let ws = writes(thorough);
    let follows = if thorough { 3 } else { 2 };
    let mut phases = Vec::new();
    {
        let ws = ws.clone();
        phases.push(Phase::new(
            "one-fault",
            format!(
                "4 initial contents x {} calls x 4 faults at every request (or none), then up to {follows} \
                 calls (retry, add, delete, 3 compactions) by the same or a new client",
                ws.len()
            ),
            move |exec| {
                vary_seed(exec, 1);
                c09_exec(exec, 4, &ws, 1, follows)
            },
        ));
    }
    {
        let ws = ws.clone();
        phases.push(Phase::new(
            "two-faults",
            format!("same, with 2 faults in the call, and up to {} calls", follows - 1),
            move |exec| c09_exec(exec, 4, &ws, 2, follows - 1),
        ));
    }
    {
        let ws = ws.clone();
        phases.push(Phase::new(
            "faults-in-a-row",
            format!(
                "2 initial contents x {} calls each failing once, 2 or 3 in a row, then all of them repeated",
                ws.len()
            ),
            move |exec| {
                let init = 1 + exec.choose(2);
                let mut w = initial(init)?;
                let cred = w.cur();
                let all = universe(&w);
                let n = if thorough { 3 } else { 2 };
                let mut done = Vec::new();
                for _ in 0..n {
                    let op = exec.pick(&ws[..4]).clone();
                    exec.say(|| format!("{} [{}]", if op.0 { "add" } else { "delete" }, show_assocs(&op.1)));
                    let fx = w.sys.client();
                    let ctl = w.sys.ctl.clone();
                    let ran = faulty(exec, &ctl, ops::write(&fx, &cred, op.0, &op.1), 1, &FAULTS);
                    exec.say(|| show_end(&ran.end));
                    let mut after = w.model.clone();
                    apply(&mut after, op.0, &op.1);
                    let fx = w.sys.client();
                    if holds(&fx, &cred, &after, &all) {
                        w.model = after;
                    } else if matches!(ran.end, TaskEnd::Done(Ok(_))) || !holds(&fx, &cred, &w.model, &all) {
                        return Err("the content is neither the one before the call nor the one after".into());
                    }
                    exec.validated += 1;
                    done.push(op);
                }
                let fx = w.sys.client();
                for op in &done {
                    go(ops::write(&fx, &cred, op.0, &op.1))
                        .map_err(|e| format!("a repeated call failed: {e}"))?;
                    apply(&mut w.model, op.0, &op.1);
                    check_exact(exec, &fx, &cred, &w.model, &all)?;
                }
                exec.state(w.digest());
                w.compact(&fx, Renew::Both, 1.0, &Filter::KeepAll)?;
                check_exact(exec, &fx, &w.cur(), &w.model, &all)
            },
        ));
    }
    phases.push(Phase::new(
        "overlapping-writers",
        format!(
            "a call that fails or is interrupted at any request, overlapping 1 or 2 writers of the same \
             keywords (one: also by the same client), all schedules of the storage requests, {} plans",
            if thorough { 18 } else { 8 }
        ),
        move |exec| {
            let op = exec.pick(&ws[..if thorough { 3 } else { 2 }]).clone();
            let one = TOp::Write(true, vec![a("a", d("of 1")), a("b", d("of 1"))]);
            let two = TOp::Write(false, vec![a("a", d("0")), a("a", d("x"))]);
            let n = exec.choose(if thorough { 6 } else { 4 });
            let others = match n {
                0 => vec![vec![one]],
                1 => vec![vec![two]],
                2 => vec![vec![one, two]],
                3 => vec![vec![two.clone(), two]],
                4 => vec![vec![one], vec![two]],
                _ => vec![vec![one.clone()], vec![one]],
            };
            c09_overlap(exec, op, others)
        },
    ));
    phases.push(Phase::new(
        "volumes",
        format!("{VOLUMES_TEXT} x 2 adds and 2 deletes x 4 faults at every request, then up to 1 call (quick tier: not for the 2 biggest)"),
        move |exec| {
            let (w, op) = big_write(exec)?;
            // Follow-ups of the biggest ones are costly.
            let small = w.universe.len() < 1000 && op.1.len() < 1000;
            c09_write(exec, w, op, 1, usize::from(thorough || small))
        },
    ));
    {
        let ns = sizes_to(if thorough { 2048 } else { 256 });
        phases.push(Phase::new(
            "sizes",
            format!("{} x 2 adds and 2 deletes x 4 faults at every request, then up to 1 call", sized_text(&ns)),
            move |exec| {
                let (_, n, all) = sized(exec, &ns);
                let (w, op) = write_of(exec, all)?;
                c09_write(exec, w, op, 1, usize::from(n <= 20))
            },
        ));
    }
    phases.push(marathon::phase(marathon::Judge::Writes, 2, if thorough { 16 } else { 2 }));
    Check {
        id: "C09",
        level: "fault_enumeration",
        rule: "each storage request of each call is refused before or after its effect, or never answered \
               (the caller dies or cancels) before or after its effect; a case is nontrivial when a fault \
               happened; the content must be the one before or the one after the call, and stay exact \
               through every follow-up",
        assumptions: vec![
            "a request takes effect as a whole or not at all (C16 decides it for the bundled store)",
            "a crash is modelled by dropping the call: the storage is the only durable state",
        ],
        phases,
    }
}

// C10 -------------------------------------------------------------------------------------------

/// An index some compactions of which did not succeed.
struct Shaky {
    w: World,
    /// Credentials that hold the whole content.
    holders: Vec<Cred>,
    fresh: u8,
}

/// Content of the keywords that several entries of the entry table hold under this key. `None`: such an
/// entry misses chain rows, which no interruption of a compaction should cause.
fn doubles(snap: &Snap, key: &[u8; 16]) -> Option<BTreeMap<[u8; 32], BTreeSet<Iv>>> {
    let mut by_kw: BTreeMap<[u8; 32], Vec<codec::EntryRow>> = BTreeMap::new();
    for e in codec::decode(snap, key).ok()?.entries {
        by_kw.entry(e.kw_hash).or_default().push(e);
    }
    let mut res = BTreeMap::new();
    for (h, rows) in by_kw {
        if rows.len() > 1 {
            let mut all = BTreeSet::new();
            for r in rows {
                if r.missing > 0 {
                    return None;
                }
                for raw in r.live_raw() {
                    all.insert(codec::from_raw(&raw)?);
                }
            }
            res.insert(h, all);
        }
    }
    Some(res)
}

pub const KF2: &str = "KF2";

fn listed(id: &str) -> bool {
    crate::KNOWN.get().is_some_and(|k| k.contains_key(id))
}

impl Shaky {
    /// Which of these credentials hold the whole content. In batch mode, each keyword is found entirely
    /// under one of them.
    fn settle(&mut self, cands: &[Cred]) -> Result<(), String> {
        let fx = self.w.sys.client();
        let kws = universe(&self.w);
        let holders: Vec<Cred> = cands
            .iter()
            .filter(|c| holds(&fx, c, &self.w.model, &kws))
            .cloned()
            .collect();
        if holders.is_empty() {
            let mut s = String::new();
            for c in cands {
                match read(&fx, c, &kws) {
                    Ok((live, _)) => {
                        s += &format!(" under {}:", c.show());
                        for (k, v) in &live {
                            s += &format!(" {}={}", show(k), show_ivs(v));
                        }
                    }
                    Err(e) => s += &format!(" under {}: {e}", c.show()),
                }
            }
            return Err(format!(
                "the content [{}] is found neither under the old credentials nor under the new ones:{s}",
                show_assocs(&self.w.model.assocs().into_iter().collect::<Vec<_>>())
            ));
        }
        self.holders = holders;
        Ok(())
    }

    /// True if the loss is the one of the known finding.
    fn is_kf2(&self, before: &Snap, from: &Cred, to: &Cred) -> bool {
        let Some(dup) = doubles(before, &from.key) else {
            return false;
        };
        if dup.is_empty() {
            return false;
        }
        let fx = self.w.sys.client();
        let kws = universe(&self.w);
        // Every keyword with a single entry is intact, the others hold nothing new.
        [from, to].into_iter().any(|c| {
            kws.iter().all(|k| {
                let Ok((live, _)) = read(&fx, c, std::slice::from_ref(k)) else {
                    return false;
                };
                let got = live.get(k).cloned().unwrap_or_default();
                match dup.get(&codec::hash_kw(k)) {
                    Some(all) => got.is_subset(all),
                    None => got == self.w.model.of(k),
                }
            })
        })
    }

    fn fresh(&mut self, from: &Cred, renew: Renew) -> Cred {
        self.fresh += 1;
        let mut c = from.clone();
        if renew != Renew::Key {
            c.label = format!("fresh-{}", self.fresh).into_bytes();
        }
        if renew != Renew::Label {
            c.key = Cred::new(100 + self.fresh, "").key;
        }
        c
    }
}

/// What a client could not do, a new one cannot either: no failure leaves it unable to compact.
fn as_a_new_client(exec: &mut Exec, w: &World, from: &Cred, to: &Cred, rate: f64) -> Result<(), String> {
    // The rows read do not depend on a draw.
    if rate > 0.0 && rate < 1.0 {
        return Ok(());
    }
    let before = w.sys.snap();
    let fx = w.sys.client();
    exec.validated += 1;
    if go(ops::compact(&fx, from, to, rate)).is_ok() {
        return Err(format!(
            "the client cannot compact {} -> {} at {rate} although a new one can",
            from.show(),
            to.show()
        ));
    }
    w.sys.restore(&before);
    Ok(())
}

/// Compacts and accounts for it. `Ok(false)`: the known finding was met.
fn shaky_compact(
    exec: &mut Exec,
    s: &mut Shaky,
    fx: &Fx,
    from: &Cred,
    to: &Cred,
    rate: f64,
) -> Result<bool, String> {
    let before = s.w.sys.snap();
    let holders = s.holders.clone();
    let res = go(ops::compact(fx, from, to, rate));
    exec.say(|| format!("compact {} -> {} at {rate}: {res:?}", from.show(), to.show()));
    exec.transitions += 1;
    let mut cands = match &res {
        Ok(()) => vec![to.clone()],
        Err(_) => {
            let mut c = vec![from.clone(), to.clone()];
            c.extend(holders);
            c
        }
    };
    cands.sort();
    cands.dedup();
    if let Err(e) = s.settle(&cands) {
        if listed(KF2) && s.is_kf2(&before, from, to) {
            exec.known(
                KF2,
                format!("compaction from {} to {} after an interrupted one: {e}", from.show(), to.show()),
            );
            return Ok(false);
        }
        return Err(e);
    }
    if res.is_err() {
        // Nothing was stored for good: the tables are as they were.
        exec.validated += 1;
        if s.w.sys.snap() != before {
            return Err("a compaction that fails by itself changed the tables".into());
        }
        as_a_new_client(exec, &s.w, from, to, rate)?;
    }
    Ok(true)
}

/// Follow-ups of an unsuccessful compaction. `Ok(false)`: stop.
fn c10_follow(exec: &mut Exec, s: &mut Shaky, fx: &Fx, orig: &(Cred, Cred, f64)) -> Result<bool, String> {
    let holders = s.holders.clone();
    let from = exec.pick(&holders).clone();
    let c = exec.choose(8);
    match c {
        0 => return Ok(false),
        1 => {
            exec.say(|| "then the same compaction".into());
            if !shaky_compact(exec, s, fx, &orig.0, &orig.1, orig.2)? {
                return Ok(false);
            }
        }
        2 | 3 => {
            let (add, x) = if c == 2 {
                (true, vec![a("a", d("later")), a("c", d("later"))])
            } else {
                (false, vec![a("a", d("0")), a("b", d("1"))])
            };
            exec.say(|| format!("then a write under {}: {add} [{}]", from.show(), show_assocs(&x)));
            go(ops::write(fx, &from, add, &x)).map_err(|e| format!("a later write failed: {e}"))?;
            apply(&mut s.w.model, add, &x);
            exec.transitions += 1;
            // The other credentials no longer hold the content.
            s.settle(&[from])?;
        }
        _ => {
            let (renew, rate) = [
                (Renew::Label, 1.0),
                (Renew::Label, 0.0),
                (Renew::Both, 1.0),
                (Renew::Label, 0.3),
            ][c - 4];
            let to = s.fresh(&from, renew);
            if !shaky_compact(exec, s, fx, &from, &to, rate)? {
                return Ok(false);
            }
        }
    }
    exec.state(s.w.digest());
    Ok(true)
}

fn compactions() -> Vec<(Renew, f64)> {
    let mut v = Vec::new();
    for r in [Renew::Label, Renew::Key, Renew::Both] {
        for rate in [1.0, 0.0, 0.3] {
            v.push((r, rate));
        }
    }
    v
}

fn c10_exec(
    exec: &mut Exec,
    specs: &[(Renew, f64)],
    budget: usize,
    follows: usize,
    seeds: usize,
) -> Result<(), String> {
    vary_seed(exec, seeds);
    let init = exec.choose(4);
    let w = initial(init)?;
    let (renew, rate) = *exec.pick(specs);
    exec.say(|| format!("initial content {init}; compact renewing {renew:?} at rate {rate}"));
    c10_compact(exec, w, renew, rate, budget, follows)
}

fn c10_compact(
    exec: &mut Exec,
    mut w: World,
    renew: Renew,
    rate: f64,
    budget: usize,
    follows: usize,
) -> Result<(), String> {
    let old = w.cur();
    let new = w.next_cred(renew);
    let fx = w.sys.client();
    let before = w.sys.snap();
    w.sys.ctl.take_trace();
    let ctl = w.sys.ctl.clone();
    let ran = faulty(exec, &ctl, ops::compact(&fx, &old, &new, rate), budget, &FAULTS);
    exec.say(|| show_end(&ran.end));
    let trace = w.sys.ctl.take_trace();
    let mut s = Shaky {
        w,
        holders: Vec::new(),
        fresh: 0,
    };
    let done = matches!(ran.end, TaskEnd::Done(Ok(())));
    if done {
        s.settle(std::slice::from_ref(&new))?;
    } else {
        s.settle(&[old.clone(), new.clone()])?;
    }
    exec.validated += 1;
    let stored = trace
        .iter()
        .any(|r| r.table == ET && matches!(r.kind, Kind::Insert | Kind::Upsert) && r.ok);
    if matches!(ran.end, TaskEnd::Done(Err(_))) && ran.faults.len() == 1 && !stored && s.w.sys.snap() != before {
        return Err("a compaction that failed before storing its new entries changed the tables".into());
    }
    exec.outcome(u64::from(done) | (s.holders.len() as u64) << 1 | u64::from(stored) << 8);
    exec.state(s.w.digest());
    let fx = if exec.flag() { s.w.sys.client() } else { fx };
    let orig = (old, new, rate);
    for _ in 0..follows {
        if !c10_follow(exec, &mut s, &fx, &orig)? {
            break;
        }
    }
    Ok(())
}

/// A compaction whose filter drops data, some requests of which are not served: the whole content is found
/// under the old credentials, or what the filter keeps under the new ones.
fn c10_filter(exec: &mut Exec, mut w: World, filter: Filter, budget: usize, follows: usize) -> Result<(), String> {
    let renew = *exec.pick(&[Renew::Label, Renew::Key, Renew::Both]);
    let rate = *exec.pick(&[1.0, 0.4]);
    let old = w.cur();
    let new = w.next_cred(renew);
    exec.say(|| format!("compact renewing {renew:?} at rate {rate}, filter: {}", filter.show()));
    let fx = w.sys.client();
    let ctl = w.sys.ctl.clone();
    let f2 = filter.clone();
    let ran = faulty(
        exec,
        &ctl,
        ops::compact_with(&fx, &old, &new, rate, move |x| Ok(f2.apply(x))),
        budget,
        &FAULTS,
    );
    exec.say(|| show_end(&ran.end));
    let done = matches!(ran.end, TaskEnd::Done(Ok(())));
    let kws = universe(&w);
    // What each keyword may hold under the new credentials.
    let mut kept = w.model.clone();
    kept.retain_data(|d| filter.apply(BTreeSet::from([d.clone()])).contains(d));
    let fx = w.sys.client();
    let of_new = match read(&fx, &new, &kws) {
        Ok((mut live, _)) => {
            live.retain(|_, s| !s.is_empty());
            let fits = kws.iter().all(|k| {
                let got = live.get(k).cloned().unwrap_or_default();
                got == kept.of(k) || (rate < 1.0 && got == w.model.of(k))
            });
            fits.then_some(Model { live })
        }
        Err(_) => None,
    };
    let whole = holds(&fx, &old, &w.model, &kws);
    exec.validated += 1;
    if of_new.is_none() && (done || !whole) {
        return Err(format!(
            "{}: the content is not found under the old credentials, nor what the filter keeps under the new ones",
            show_end(&ran.end)
        ));
    }
    exec.outcome(u64::from(done) | u64::from(whole) << 1 | u64::from(of_new.is_some()) << 2);
    exec.state(w.digest());
    if of_new.is_some() && whole && !done {
        // Both entries of a keyword are stored: what the filter drops is not settled yet.
        return Ok(());
    }
    let from_new = of_new.is_some();
    let holder = if from_new {
        w.model = of_new.expect("the new credentials hold it");
        new.clone()
    } else {
        old.clone()
    };
    let mut s = Shaky {
        w,
        holders: vec![holder],
        fresh: 0,
    };
    let orig = (old, new, rate);
    for _ in 0..follows {
        if !c10_follow(exec, &mut s, &fx, &orig)? {
            break;
        }
    }
    Ok(())
}

/// In batches: each keyword is found, entirely, under the old or the new credentials.
fn batch_settle(exec: &mut Exec, w: &World, cands: &[Cred]) -> Result<bool, String> {
    let fx = w.sys.client();
    let mut whole = vec![true; cands.len()];
    for k in &w.universe {
        let want = w.model.of(k);
        let mut found = want.is_empty();
        for (i, c) in cands.iter().enumerate() {
            let (live, _) = read(&fx, c, std::slice::from_ref(k))?;
            let got = live.get(k).cloned().unwrap_or_default();
            exec.validated += 1;
            if got == want {
                found = true;
            } else {
                whole[i] = false;
                if !got.is_subset(&want) {
                    return Err(format!("{} holds {} instead of {}", show(k), show_ivs(&got), show_ivs(&want)));
                }
            }
        }
        if !found {
            return Err(format!(
                "{} of {} is found neither under the old credentials nor under the new ones",
                show_ivs(&want),
                show(k)
            ));
        }
    }
    Ok(whole.iter().any(|w| *w))
}

fn c10_batch(exec: &mut Exec, specs: &[(Renew, f64)], filter_fails: bool) -> Result<(), String> {
    let n = 2 + exec.choose(4);
    let (renew, rate) = *exec.pick(specs);
    let names: Vec<String> = (0..n).map(|i| format!("k{i}")).collect();
    let mut w = World::new(&[]);
    w.universe.extend(names.iter().map(|s| s.as_bytes().to_vec()));
    let fx = w.sys.client();
    let assocs: Vec<Assoc> = names
        .iter()
        .enumerate()
        .flat_map(|(i, k)| vec![a(k, d(&format!("v{i}"))), a(k, d("shared"))])
        .collect();
    w.add(&fx, &assocs)?;
    let old = w.cur();
    let new = w.next_cred(renew);
    exec.say(|| format!("{n} keywords; compact renewing {renew:?} at rate {rate}"));
    let ctl = w.sys.ctl.clone();
    let calls = Rc::new(RefCell::new(0));
    let fail_at = if filter_fails { exec.choose(4) } else { usize::MAX };
    let c2 = calls.clone();
    let ran = faulty(
        exec,
        &ctl,
        ops::compact_with(&fx, &old, &new, rate, move |x| {
            let i = *c2.borrow();
            *c2.borrow_mut() += 1;
            if i == fail_at {
                Err("filter".into())
            } else {
                Ok(x)
            }
        }),
        usize::from(!filter_fails),
        &FAULTS,
    );
    exec.say(|| show_end(&ran.end));
    let done = matches!(ran.end, TaskEnd::Done(Ok(())));
    if filter_fails && done && *calls.borrow() > fail_at {
        return Err("the compaction succeeds although the filter failed".into());
    }
    let cands = if done { vec![new.clone()] } else { vec![old.clone(), new.clone()] };
    batch_settle(exec, &w, &cands)?;
    exec.state(w.digest());
    if done {
        return Ok(());
    }
    // Whatever follows, nothing is lost.
    let steps = 2;
    let mut cands = cands;
    for i in 0..steps {
        let fx = w.sys.client();
        let (from, to) = match exec.choose(4) {
            0 => return Ok(()),
            1 => (old.clone(), new.clone()),
            2 => (old.clone(), Cred { label: format!("f{i}").into_bytes(), ..old.clone() }),
            _ => (new.clone(), Cred { label: format!("f{i}").into_bytes(), ..new.clone() }),
        };
        let before = w.sys.snap();
        let res = go(ops::compact(&fx, &from, &to, 1.0));
        exec.say(|| format!("compact {} -> {}: {res:?}", from.show(), to.show()));
        if !cands.contains(&to) {
            cands.push(to);
        }
        if let Err(e) = batch_settle(exec, &w, &cands) {
            if listed(KF2) && doubles(&before, &from.key).is_some_and(|d| !d.is_empty()) {
                exec.known(KF2, format!("compaction in batches after an interrupted one: {e}"));
                return Ok(());
            }
            return Err(e);
        }
        exec.state(w.digest());
    }
    Ok(())
}

pub fn c10(thorough: bool) -> Check {
    let mut phases = Vec::new();
    let specs = compactions();
    let follows = if thorough { 3 } else { 2 };
    {
        let specs = specs.clone();
        phases.push(Phase::new(
            "one-fault",
            format!(
                "4 initial contents x 9 compactions (renewed: label, key, both; rate 1, 0, 0.3) x 4 faults at \
                 every request (or none), then up to {follows} operations (retry, 2 writes, 4 compactions) \
                 under each credentials that hold the content, by the same or a new client"
            ),
            move |exec| c10_exec(exec, &specs, 1, follows, 1),
        ));
    }
    {
        let specs = specs.clone();
        phases.push(Phase::new(
            "two-faults",
            format!("same, with 2 faults, 2 seeds, and up to {} operations", follows - 1),
            move |exec| c10_exec(exec, &specs, 2, follows - 1, 2),
        ));
    }
    phases.push(Phase::new(
        "refused",
        "4 initial contents x compactions that cannot succeed (wrong key, wrong label and key, same \
         credentials, label in use by other data or by the former index) or repeat a former one, up to 3 in \
         a row"
            .to_string(),
        move |exec| {
            let init = exec.choose(4);
            let w = initial(init)?;
            let mut s = Shaky {
                holders: vec![w.cur()],
                w,
                fresh: 0,
            };
            let fx = s.w.sys.client();
            let first = s.w.cur();
            let mut other: Option<Model> = None;
            let other_cred = Cred { label: b"in use".to_vec(), ..first.clone() };
            for _ in 0..3 {
                let cur = s.holders[0].clone();
                let rate = *exec.pick(&[1.0, 0.0]);
                let c = exec.choose(7);
                let (from, to) = match c {
                    0 => return Ok(()),
                    1 => (Cred { key: Cred::new(77, "").key, ..cur.clone() }, s.fresh(&cur, Renew::Label)),
                    2 => (cur.clone(), cur.clone()),
                    3 => {
                        // Other data under the target label.
                        let x = [a("a", d("elsewhere")), a("z", d("elsewhere"))];
                        if cur.key == other_cred.key {
                            go(ops::add(&fx, &other_cred, &x)).map_err(|e| format!("add failed: {e}"))?;
                            let mut m = other.take().unwrap_or_default();
                            m.add(&x);
                            other = Some(m);
                        }
                        (cur.clone(), other_cred.clone())
                    }
                    // To the credentials that already hold the content.
                    4 => (Cred { label: b"unused".to_vec(), ..cur.clone() }, cur.clone()),
                    5 => (first.clone(), cur.clone()),
                    _ => (cur.clone(), s.fresh(&cur, Renew::Label)),
                };
                let before = s.w.sys.snap();
                let res = go(ops::compact(&fx, &from, &to, rate));
                exec.evals += 1;
                exec.nontrivial += u64::from(c < 6);
                exec.transitions += 1;
                exec.say(|| format!("compact {} -> {}: {res:?}", from.show(), to.show()));
                if res.is_err() {
                    exec.validated += 1;
                    if s.w.sys.snap() != before {
                        return Err("a refused compaction changed the tables".into());
                    }
                    as_a_new_client(exec, &s.w, &from, &to, rate)?;
                    s.settle(&[cur])?;
                } else {
                    if from == to {
                        return Err("nothing is renewed and the compaction succeeds".into());
                    }
                    if from.key != cur.key && !before.et.is_empty() {
                        return Err("a compaction succeeds with a wrong key".into());
                    }
                    if other.is_some() {
                        // A compaction moves the whole entry table, as documented: not followed further.
                        return Ok(());
                    }
                    s.settle(&[cur, to.clone()])?;
                }
                if other.is_some() {
                    let m = other.as_ref().expect("some");
                    check_exact(exec, &fx, &other_cred, m, &[kw("a"), kw("z")])?;
                }
                exec.state(s.w.digest());
            }
            Ok(())
        },
    ));
    {
        let specs = specs.clone();
        phases.push(Phase::new(
            "filter",
            "4 initial contents x 9 compactions whose filter fails".to_string(),
            move |exec| {
                let init = exec.choose(4);
                let mut w = initial(init)?;
                let (renew, rate) = *exec.pick(&specs);
                let old = w.cur();
                let new = w.next_cred(renew);
                let fx = w.sys.client();
                let before = w.sys.snap();
                // It may not be called at all when there is no data.
                let called = std::cell::Cell::new(false);
                let res = go(ops::compact_with(&fx, &old, &new, rate, |_| {
                    called.set(true);
                    Err("filter".into())
                }));
                exec.evals += 1;
                exec.nontrivial += 1;
                exec.transitions += 1;
                if res.is_ok() {
                    if called.get() {
                        return Err("the compaction succeeds although its filter failed".into());
                    }
                    return check_exact(exec, &fx, &new, &w.model, &w.universe.iter().cloned().collect::<Vec<_>>());
                }
                exec.validated += 1;
                if w.sys.snap() != before {
                    return Err("the tables changed although the filter failed".into());
                }
                let mut s = Shaky {
                    w,
                    holders: vec![old.clone()],
                    fresh: 0,
                };
                let orig = (old, new, rate);
                for _ in 0..2 {
                    if !c10_follow(exec, &mut s, &fx, &orig)? {
                        break;
                    }
                }
                Ok(())
            },
        ));
    }
    phases.push(Phase::new(
        "dropping-filters",
        format!(
            "6 initial contents x 3 filters (drop one value, several, all) x renewed label, key or both x rate \
             1 or 0.4 x up to {} faults at every request, then up to {follows} operations",
            if thorough { 2 } else { 1 }
        ),
        move |exec| {
            let init = exec.choose(6);
            let w = if init < 4 {
                initial(init)?
            } else {
                // Data only: nothing may remain.
                let mut w = World::new(&["a", "b", "c"]);
                let fx = w.sys.client();
                w.add(&fx, &[a("a", d("0"))])?;
                if init == 5 {
                    w.add(&fx, &[a("a", d("1")), a("b", d("2")), a("b", d("0")), a("c", d("1"))])?;
                    w.del(&fx, &[a("c", d("1"))])?;
                }
                w
            };
            let filter = match exec.choose(3) {
                0 => Filter::Drop([b"0".to_vec()].into()),
                1 => Filter::Drop([b"0".to_vec(), b"1".to_vec(), b"2".to_vec()].into()),
                _ => Filter::KeepNone,
            };
            exec.say(|| format!("initial content {init}"));
            c10_filter(exec, w, filter, if thorough { 2 } else { 1 }, follows)
        },
    ));
    phases.push(Phase::new(
        "volumes",
        format!(
            "{VOLUMES_TEXT}, whole or half deleted, compacted at rate 1, 0 or 0.4, 4 faults at every request, \
             then up to 1 operation"
        ),
        move |exec| {
            let which = exec.choose(VOLUMES);
            let all = volume(which);
            let mut w = volume_world(&all);
            let fx = w.sys.client();
            w.add(&fx, &all)?;
            let part = exec.flag();
            if part {
                w.del(&fx, &half(&all))?;
            }
            let (renew, rate) = *exec.pick(&[
                (Renew::Label, 1.0),
                (Renew::Both, 1.0),
                (Renew::Both, 0.0),
                (Renew::Key, 0.4),
            ]);
            exec.say(|| format!("volume {which}, half of it deleted: {part}; compact renewing {renew:?} at rate {rate}"));
            // Follow-ups of the biggest ones are costly.
            c10_compact(exec, w, renew, rate, 1, usize::from(thorough || ![1, 2].contains(&which)))
        },
    ));
    {
        let ns = sizes_to(if thorough { 1024 } else { 256 });
        phases.push(Phase::new(
            "sizes",
            format!("{}, compacted at rate 1 or 0, 4 faults at every request, then up to 1 operation", sized_text(&ns)),
            move |exec| {
                let (_, n, all) = sized(exec, &ns);
                let mut w = volume_world(&all);
                let fx = w.sys.client();
                w.add(&fx, &all)?;
                let (renew, rate) = *exec.pick(&[(Renew::Label, 1.0), (Renew::Both, 0.0)]);
                exec.say(|| format!("compact renewing {renew:?} at rate {rate}"));
                c10_compact(exec, w, renew, rate, 1, usize::from(n <= 5))
            },
        ));
    }
    {
        let specs = specs.clone();
        phases.push(Phase::new(
            "batch: one-fault",
            "2 to 5 keywords compacted 2 by 2, 9 compactions x 4 faults at every request, then up to 2 \
             compactions"
                .to_string(),
            move |exec| c10_batch(exec, &specs, false),
        ));
    }
    phases.push(Phase::new(
        "batch: filter",
        "2 to 5 keywords compacted 2 by 2, 9 compactions whose filter fails on any batch, then up to 2 \
         compactions"
            .to_string(),
        move |exec| c10_batch(exec, &specs, true),
    ));
    phases.push(marathon::phase(marathon::Judge::Compactions, 2, if thorough { 16 } else { 2 }));
    Check {
        id: "C10",
        level: "fault_enumeration",
        rule: "each storage request of each compaction is refused before or after its effect, or never \
               answered before or after its effect; a case is nontrivial when a fault happened or the \
               compaction is refused; the whole content (each keyword, in batches) must be found under the \
               old or the new credentials, and under those that hold it through every follow-up",
        assumptions: vec![
            "a request takes effect as a whole or not at all (C16 decides it for the bundled store)",
            "a crash is modelled by dropping the call: the storage is the only durable state",
            "a batch of 2 entries behaves as one of 1 000 000 (cfg findex_verif_small_batch)",
        ],
        phases,
    }
}

// C18 -------------------------------------------------------------------------------------------

fn is_injected(e: &FErr) -> bool {
    matches!(e, Error::DbInterface(SimErr::Injected))
}

pub const FAIL: [Grant; 2] = [Grant::FailBefore, Grant::FailAfter];

/// The operation must report the failure of its request.
pub fn verdict<T>(what: &str, ran: &Ran<Result<T, FErr>>, own: bool) -> Result<(), String> {
    match &ran.end {
        TaskEnd::Died => Err(format!("{what} never answers")),
        TaskEnd::Done(Ok(_)) if !ran.faults.is_empty() => Err(format!(
            "{what} succeeds although the storage request {} failed",
            ran.faults[0].0
        )),
        TaskEnd::Done(Err(e)) if ran.faults.is_empty() => Err(format!("{what} failed: {e}")),
        TaskEnd::Done(Err(e)) if own && !is_injected(e) => {
            Err(format!("{what} reports {e:?} instead of the error of the storage"))
        }
        TaskEnd::Done(_) => Ok(()),
    }
}

fn search_kws(which: usize) -> Vec<Bytes> {
    match which {
        0 => vec![kw("a")],
        1 => vec![kw("a"), kw("b"), kw("c")],
        2 => vec![kw("absent")],
        _ => vec![],
    }
}

fn c18_big(exec: &mut Exec, mut w: World, (add, x): (bool, Vec<Assoc>)) -> Result<(), String> {
    let fx = w.sys.client();
    let cred = w.cur();
    let ctl = w.sys.ctl.clone();
    let kws = universe(&w);
    exec.validated += 1;
    match exec.choose(3) {
        0 => {
            let ran = faulty(exec, &ctl, ops::write(&fx, &cred, add, &x), 1, &FAIL);
            verdict(if add { "add" } else { "delete" }, &ran, true)
        }
        1 => {
            let ran = faulty(exec, &ctl, ops::search(&fx, &cred, &kws), 1, &FAIL);
            verdict("search", &ran, true)
        }
        _ => {
            let new = w.next_cred(Renew::Both);
            let ran = faulty(exec, &ctl, ops::compact(&fx, &cred, &new, 1.0), 1, &FAIL);
            verdict("compact", &ran, false)
        }
    }
}

pub fn c18(thorough: bool) -> Check {
    let mut phases = Vec::new();
    let ws = writes(true);
    {
        let ws = ws.clone();
        phases.push(Phase::new(
            "adds-and-deletes",
            format!("4 initial contents x {} calls, every request failing before or after its effect", ws.len()),
            move |exec| {
                let init = exec.choose(4);
                let w = initial(init)?;
                let (add, x) = exec.pick(&ws).clone();
                exec.say(|| format!("initial content {init}; {add} [{}]", show_assocs(&x)));
                let fx = w.sys.client();
                let cred = w.cur();
                let ctl = w.sys.ctl.clone();
                let ran = faulty(exec, &ctl, ops::write(&fx, &cred, add, &x), 1, &FAIL);
                exec.state(w.digest());
                exec.outcome(u64::from(matches!(ran.end, TaskEnd::Done(Ok(_)))));
                exec.validated += 1;
                verdict(if add { "add" } else { "delete" }, &ran, true)
            },
        ));
    }
    phases.push(Phase::new(
        "searches",
        "4 initial contents x 4 requested sets, every request failing (or none), the callback failing or \
         stopping at any round (or never)"
            .to_string(),
        move |exec| {
            let init = exec.choose(4);
            let w = initial(init)?;
            let kws = search_kws(exec.choose(4));
            let at = exec.choose(5);
            let cb = if at == 0 { Cb::Continue } else { *exec.pick(&[Cb::Fail, Cb::Stop]) };
            exec.say(|| format!("initial content {init}; {} keywords; {cb:?} at round {at}", kws.len()));
            let fx = w.sys.client();
            let cred = w.cur();
            let before = w.sys.snap();
            w.sys.ctl.take_trace();
            let rounds = Rc::new(RefCell::new(Vec::new()));
            let r2 = rounds.clone();
            let ctl = w.sys.ctl.clone();
            let ran = faulty(
                exec,
                &ctl,
                async {
                    ops::search_rounds(&fx, &cred, &kws, &r2, move |i| {
                        if i + 1 == at {
                            cb
                        } else {
                            Cb::Continue
                        }
                    })
                    .await
                },
                1,
                &FAIL,
            );
            exec.validated += 1;
            for r in w.sys.ctl.take_trace() {
                if !matches!(r.kind, Kind::Fetch | Kind::Dump) {
                    return Err(format!("a search sends a write request: {}", r.show()));
                }
            }
            if w.sys.snap() != before {
                return Err("a search changed the tables".into());
            }
            exec.state(w.digest());
            let called = rounds.borrow().len();
            if cb == Cb::Fail && called >= at {
                exec.nontrivial += 1;
                return match ran.end {
                    TaskEnd::Done(Err(Error::Interrupt(m))) if m.contains(ops::CB_ERROR) => Ok(()),
                    TaskEnd::Done(Err(e)) => Err(format!("the callback failed and the search reports {e:?}")),
                    TaskEnd::Done(Ok(_)) => Err("the callback failed and the search succeeds".into()),
                    TaskEnd::Died => Err("the search never answers".into()),
                };
            }
            verdict("search", &ran, true)
        },
    ));
    {
        let specs = compactions();
        phases.push(Phase::new(
            "compactions",
            format!(
                "4 initial contents x 9 compactions, up to {} requests failing, or the filter failing",
                if thorough { 3 } else { 2 }
            ),
            move |exec| {
                let init = exec.choose(4);
                let mut w = initial(init)?;
                let (renew, rate) = *exec.pick(&specs);
                let old = w.cur();
                let new = w.next_cred(renew);
                let fx = w.sys.client();
                let bad = exec.flag();
                exec.say(|| format!("initial content {init}; renewing {renew:?} at {rate}; the filter fails: {bad}"));
                let called = Rc::new(RefCell::new(false));
                let c2 = called.clone();
                let ctl = w.sys.ctl.clone();
                let ran = faulty(
                    exec,
                    &ctl,
                    ops::compact_with(&fx, &old, &new, rate, move |x| {
                        *c2.borrow_mut() = true;
                        if bad {
                            Err("filter error 51c".into())
                        } else {
                            Ok(x)
                        }
                    }),
                    if thorough { 3 } else { 2 },
                    &FAIL,
                );
                exec.validated += 1;
                exec.state(w.digest());
                if bad && *called.borrow() {
                    exec.nontrivial += 1;
                    return match ran.end {
                        TaskEnd::Done(Ok(())) => Err("the filter failed and the compaction succeeds".into()),
                        TaskEnd::Done(Err(Error::Filter(m))) if m.contains("filter error 51c") => Ok(()),
                        TaskEnd::Done(Err(e)) if ran.faults.is_empty() => {
                            Err(format!("the filter failed and the compaction reports {e:?}"))
                        }
                        TaskEnd::Done(Err(_)) => Ok(()),
                        TaskEnd::Died => Err("the compaction never answers".into()),
                    };
                }
                verdict("compact", &ran, false)
            },
        ));
    }
    phases.push(Phase::new(
        "contention",
        "a call or a search failing at any request while another client writes the same keywords, all \
         schedules of the storage requests"
            .to_string(),
        move |exec| {
            let w = initial(1)?;
            let cred = w.cur();
            let op = match exec.choose(if thorough { 5 } else { 4 }) {
                0 => TOp::Write(true, vec![a("a", d("x"))]),
                1 => TOp::Write(true, vec![a("a", d("x")), a("b", d("x")), a("c", d("x"))]),
                2 => TOp::Write(false, vec![a("a", d("0"))]),
                3 => TOp::Search(vec![kw("a")]),
                _ => TOp::Search(vec![kw("c"), kw("b")]),
            };
            let mut other = vec![TOp::Write(true, vec![a("a", d("y")), a("c", p("a"))])];
            if exec.flag() {
                other.push(TOp::Write(false, vec![a("a", d("x"))]));
            }
            let plans = vec![
                vec![(cred.clone(), op)],
                other.into_iter().map(|o| (cred.clone(), o)).collect(),
            ];
            let clients: Vec<Fx> = plans.iter().map(|_| w.sys.client()).collect();
            let Some(conc::Run { records, fired, .. }) =
                conc::run_faulty(exec, &w.sys.ctl, &clients, &plans, 1, &[0], &FAIL)
            else {
                return Ok(());
            };
            exec.evals += 1;
            exec.nontrivial += u64::from(!fired.is_empty());
            exec.validated += 1;
            for r in &records {
                let err = match &r.res {
                    conc::Res::Wrote(Err(e)) | conc::Res::Searched(_, Err(e)) | conc::Res::Compacted(Err(e)) => {
                        Some(e)
                    }
                    _ => None,
                };
                if r.task != 0 || fired.is_empty() {
                    if let Some(e) = err {
                        return Err(format!("{} failed: {e}", r.op.show()));
                    }
                } else {
                    match err {
                        None => return Err(format!("{} succeeds although a request failed", r.op.show())),
                        Some(e) if !is_injected(e) => {
                            return Err(format!("{} reports {e:?}", r.op.show()));
                        }
                        _ => (),
                    }
                }
            }
            exec.state(w.digest());
            Ok(())
        },
    ));
    phases.push(Phase::new(
        "volumes",
        format!("{VOLUMES_TEXT} x 2 adds, 2 deletes, a search and a compaction, every request failing"),
        |exec| {
            let (w, op) = big_write(exec)?;
            c18_big(exec, w, op)
        },
    ));
    {
        let ns = sizes_to(if thorough { 8192 } else { 1024 });
        phases.push(Phase::new(
            "sizes",
            format!("{} x 2 adds, 2 deletes, a search and a compaction, every request failing", sized_text(&ns)),
            move |exec| {
                let (_, _, all) = sized(exec, &ns);
                let (w, op) = write_of(exec, all)?;
                c18_big(exec, w, op)
            },
        ));
    }
    phases.push(marathon::phase(marathon::Judge::Errors, 2, if thorough { 16 } else { 2 }));
    Check {
        id: "C18",
        level: "fault_enumeration",
        rule: "each storage request of each operation fails before or after its effect, each call of the \
               callback and of the filter fails; a case is nontrivial when something failed; the operation \
               must return the error",
        assumptions: vec!["the backend reports its failures as errors"],
        phases,
    }
}
