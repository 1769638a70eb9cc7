//! C07 (writers), C08 (searches and writers), C13 (new keywords).
use std::collections::BTreeSet;

use super::{
    common::{
        check_exact, half, read, sized, sized_text, sizes_to, volume, volume_world, Filter, Op, Renew, World,
        VOLUMES, VOLUMES_TEXT,
    },
    Check,
};
use crate::{
    conc::{self, TOp},
    explore::{Exec, Phase},
    model::{a, d, kw, p, show, show_set, Assoc, Cred, Live, Model},
    ops,
    sim::{self, go, Bytes, Fx},
};

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Writers,
    Searches,
    New,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// Each task has its own client: commuting requests are not reordered.
    Own,
    /// Also all tasks sharing one client, without any reduction.
    OwnOrShared,
    /// Real threads, at the granularity of the locks of the store.
    Threads,
}

/// Initial contents.
pub fn initial(which: usize) -> Result<World, String> {
    let mut w = World::new(&["a", "b", "c"]);
    let fx = w.sys.client();
    match which {
        0 => (),
        1 => {
            w.add(&fx, &[a("a", d("0"))])?;
        }
        2 => {
            w.add(&fx, &[a("a", d("0")), a("a", d("00")), a("a", p("b")), a("b", d("0"))])?;
            w.del(&fx, &[a("a", d("00"))])?;
        }
        _ => {
            w.add(&fx, &[a("a", d("0")), a("a", p("b")), a("b", d("0")), a("c", d("0"))])?;
            w.compact(&fx, Renew::Both, 1.0, &Filter::KeepAll)?;
            w.del(&fx, &[a("b", d("0"))])?;
        }
    }
    Ok(w)
}

pub const INITIALS: usize = 4;

/// Writes of client `t`.
pub fn write(t: usize, which: usize) -> TOp {
    let v = |s: &str| d(&format!("{s} of {t}"));
    let long = |s: &str| d(&format!("{s} of {t} and a tail that makes it span several blocks"));
    match which {
        0 => TOp::Write(true, vec![a("a", v("x"))]),
        1 => TOp::Write(true, vec![a("a", v("x")), a("b", v("x"))]),
        // Several links.
        2 => TOp::Write(true, vec![a("a", long("x")), a("a", long("y")), a("a", d("0"))]),
        3 => TOp::Write(false, vec![a("a", d("0"))]),
        // Removes what another client adds.
        4 => TOp::Write(false, vec![a("a", d(&format!("x of {}", 1 - t.min(1)))), a("b", d("0"))]),
        5 => TOp::Write(true, vec![a("b", v("z")), a("c", p("a"))]),
        6 => TOp::Write(true, vec![a("a", d("same"))]),
        7 => TOp::Write(false, vec![a("a", d("same"))]),
        _ => TOp::Write(true, vec![a("b", v("y"))]),
    }
}

pub const N_WRITES: usize = 9;

/// Keywords holding several values of a same write must not show a part of it.
fn live_of(w: &World, fx: &Fx, cred: &Cred) -> Result<Live, String> {
    let kws: Vec<Bytes> = w.universe.iter().cloned().collect();
    Ok(read(fx, cred, &kws)?.0)
}

/// Common verdict on the records of an execution.
pub fn judge(
    exec: &mut Exec,
    w: &World,
    records: &[conc::Record],
    what: What,
    present: &BTreeSet<Bytes>,
) -> Result<(), String> {
    let cred = w.cur();
    conc::all_ok(records)?;
    // A client that did not take part reads the final content.
    let fx = w.sys.client();
    let last = live_of(w, &fx, &cred)?;
    match what {
        What::New => {
            exec.validated += 1;
            conc::check_new(records, &cred, present)?;
        }
        _ => {
            conc::check_keywords(
                exec,
                records,
                &cred,
                &w.model.live,
                &last,
                &w.universe,
                what == What::Searches,
            )?;
            if what == What::Searches {
                conc::check_answers(records)?;
            }
        }
    }
    exec.outcome(crate::codec::hash64(&format!("{last:?}")));
    let h = w.digest();
    exec.state(h);
    if what == What::Writers && exec.once(h) {
        // The index stays fully usable.
        let mut model = Model { live: last };
        let all: Vec<Bytes> = w.universe.iter().cloned().collect();
        let x = [a("a", d("after")), a("b", d("after"))];
        go(ops::add(&fx, &cred, &x)).map_err(|e| format!("a later add failed: {e}"))?;
        model.add(&x);
        let y: Vec<Assoc> = model.assocs().into_iter().take(2).collect();
        go(ops::del(&fx, &cred, &y)).map_err(|e| format!("a later delete failed: {e}"))?;
        model.del(&y);
        check_exact(exec, &fx, &cred, &model, &all)?;
        let new = Cred {
            label: b"after".to_vec(),
            ..cred.clone()
        };
        go(ops::compact(&fx, &cred, &new, 1.0)).map_err(|e| format!("a later compact failed: {e}"))?;
        check_exact(exec, &fx, &new, &model, &all)?;
    }
    Ok(())
}

/// Plans of writers, and searches if asked.
fn conc_phase(
    name: &str,
    bounds: String,
    what: What,
    plan: impl Fn(&mut Exec) -> (usize, Vec<Vec<TOp>>) + Send + Sync + 'static,
    mode: Mode,
) -> Phase {
    let threads = mode == Mode::Threads;
    Phase::new(name, bounds, move |exec| {
        let (init, plans) = plan(exec);
        let shared = mode == Mode::OwnOrShared && exec.flag();
        exec.say(|| format!("initial content {init}, shared client: {shared}"));
        conc_exec(exec, initial(init)?, plans, what, threads, shared)
    })
}

fn conc_exec(
    exec: &mut Exec,
    w: World,
    plans: Vec<Vec<TOp>>,
    what: What,
    threads: bool,
    shared: bool,
) -> Result<(), String> {
        let cred = w.cur();
        let present = w.present(&cred);
        let plans: Vec<Vec<(Cred, TOp)>> = plans
            .into_iter()
            .map(|p| p.into_iter().map(|op| (cred.clone(), op)).collect())
            .collect();
        let records = if threads {
            conc::run_threads(exec, &w.sys, &plans)?
        } else {
            let clients: Vec<Fx> =
                (0..if shared { 1 } else { plans.len() }).map(|_| w.sys.client()).collect();
            match conc::run(exec, &w.sys.ctl, &clients, &plans) {
                Some(r) => r,
                None => return Ok(()),
            }
        };
        judge(exec, &w, &records, what, &present)
}

/// Big calls: two writers, or a writer and a search.
fn volume_phase(what: What) -> Phase {
    Phase::new(
        "volumes",
        format!(
            "{VOLUMES_TEXT}, nothing, half or all of it stored, a client adding or deleting it and a client \
             {}, all schedules of the storage requests",
            if what == What::Searches { "searching it once or twice" } else { "writing the other half or all of it" }
        ),
        move |exec| {
            let which = exec.choose(VOLUMES);
            let all = volume(which);
            let mut w = volume_world(&all);
            let init = exec.choose(3);
            let fx = w.sys.client();
            match init {
                0 => (),
                1 => {
                    w.add(&fx, &half(&all))?;
                }
                _ => {
                    w.add(&fx, &all)?;
                }
            }
            let add = exec.flag();
            exec.say(|| format!("volume {which}, stored: {init}/2"));
            let first = TOp::Write(add, if exec.flag() { half(&all) } else { all.clone() });
            let kws: Vec<Bytes> = w.universe.iter().cloned().collect();
            let second = if what == What::Searches {
                let s = TOp::Search(kws);
                if exec.flag() { vec![s.clone(), s] } else { vec![s] }
            } else {
                let add = exec.flag();
                let x = if exec.flag() { all[1..].iter().step_by(2).cloned().collect() } else { all };
                vec![TOp::Write(add, x)]
            };
            conc_exec(exec, w, vec![vec![first], second], what, false, false)
        },
    )
}

/// Contents of many sizes.
fn size_phase(what: What, thorough: bool) -> Phase {
    let ns = sizes_to(if thorough { 2048 } else { 512 });
    Phase::new(
        "sizes",
        format!(
            "{}, nothing or half of it stored, a client adding or deleting it and a client {}, all schedules of \
             the storage requests",
            sized_text(&ns),
            if what == What::Searches { "searching it" } else { "writing the other half or all of it" }
        ),
        move |exec| {
            let (_, _, all) = sized(exec, &ns);
            let mut w = volume_world(&all);
            let fx = w.sys.client();
            if exec.flag() {
                w.add(&fx, &half(&all))?;
            }
            let first = TOp::Write(exec.flag(), all.clone());
            let kws: Vec<Bytes> = w.universe.iter().cloned().collect();
            let second = if what == What::Searches {
                TOp::Search(kws)
            } else {
                let x = if exec.flag() { all[1..].iter().step_by(2).cloned().collect() } else { all };
                TOp::Write(true, x)
            };
            conc_exec(exec, w, vec![vec![first], vec![second]], what, false, false)
        },
    )
}

/// A call against a client that writes the same keyword again and again.
fn contention_phase(what: What, thorough: bool) -> Phase {
    let (wins, mixed) = if thorough { (150, 6) } else { (70, 4) };
    Phase::new(
        "contention",
        format!(
            "a call over 1, 2 or 30 keywords, another client completing a call over one or all of them before \
             each of its conditional writes: up to {wins} times, and every choice of the other call up to \
             {mixed} times"
        ),
        move |exec| {
            let mut w = initial(*exec.pick(&[0, 2]))?;
            let n = *exec.pick(&[1, 2, 30]);
            let kws: Vec<Bytes> = (0..n).map(|i| if i == 0 { kw("a") } else { kw(&format!("k{i}")) }).collect();
            w.universe.extend(kws.iter().cloned());
            let add = exec.flag();
            let mine = d("0");
            let call: Vec<Assoc> = kws.iter().map(|k| (k.clone(), mine.clone())).collect();
            // Calls of the other client.
            let other = |i: usize, kind: usize| -> TOp {
                let v = d(&format!("other {}", i % 9));
                let all: Vec<Assoc> = kws.iter().map(|k| (k.clone(), v.clone())).collect();
                match kind {
                    0 => TOp::Write(true, vec![(kws[0].clone(), v)]),
                    1 => TOp::Write(true, all),
                    2 => TOp::Write(false, all),
                    _ => TOp::Write(true, vec![(kws[n - 1].clone(), v)]),
                }
            };
            let others: Vec<TOp> = if exec.flag() {
                let k = exec.choose(mixed + 1);
                (0..k).map(|i| other(i, exec.choose(4))).collect()
            } else {
                let k = exec.choose(wins + 1);
                let kind = exec.choose(2);
                (0..k).map(|i| other(i, kind)).collect()
            };
            exec.say(|| format!("{n} keywords, {} calls of the other client", others.len()));
            let cred = w.cur();
            let present = w.present(&cred);
            let plans = [
                vec![(cred.clone(), TOp::Write(add, call))],
                others.iter().map(|o| (cred.clone(), o.clone())).collect::<Vec<_>>(),
            ];
            let clients = [w.sys.client(), w.sys.client()];
            let out = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
            let tasks = plans
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    Box::pin(conc::body(w.sys.ctl.clone(), &clients[i], i, p.clone(), out.clone()))
                        as std::pin::Pin<Box<dyn std::future::Future<Output = ()> + '_>>
                })
                .collect();
            // The other client runs a whole call each time the first one is about to write an entry.
            let mut inside = false;
            let mut started = false;
            let mut calls = 0;
            let left = others.len();
            sim::run_tasks(&w.sys.ctl, tasks, &mut |waiting: &[sim::Wait]| {
                let a = waiting.iter().position(|w| w.task == 0);
                let b = waiting.iter().position(|w| w.task == 1);
                let (Some(a), Some(b)) = (a, b) else {
                    return (0, sim::Grant::Serve);
                };
                if inside && (waiting[b].first && started) {
                    inside = false;
                } else if !inside && waiting[a].kind == sim::Kind::Upsert && calls < left {
                    calls += 1;
                    inside = true;
                    started = true;
                    return (b, sim::Grant::Serve);
                }
                (if inside { b } else { a }, sim::Grant::Serve)
            });
            let records = std::mem::take(&mut *out.borrow_mut());
            exec.transitions += w.sys.ctl.take_trace().len() as u64;
            conc::all_ok(&records)?;
            exec.evals += 1;
            exec.nontrivial += u64::from(!others.is_empty());
            if what == What::New {
                exec.validated += 1;
                conc::check_new(&records, &cred, &present)?;
            }
            // Adds and deletes of distinct values commute: the order of the others is theirs.
            for o in &others {
                if let TOp::Write(add, x) = o {
                    if *add { w.model.add(x) } else { w.model.del(x) }
                }
            }
            let call: Vec<Assoc> = kws.iter().map(|k| (k.clone(), mine.clone())).collect();
            if add { w.model.add(&call) } else { w.model.del(&call) }
            let all: Vec<Bytes> = w.universe.iter().cloned().collect();
            check_exact(exec, &w.sys.client(), &cred, &w.model, &all)?;
            exec.state(w.digest());
            Ok(())
        },
    )
}

fn search(which: usize) -> TOp {
    TOp::Search(match which {
        0 => vec![kw("a")],
        1 => vec![kw("a"), kw("b"), kw("c")],
        _ => vec![kw("b")],
    })
}

fn writer_phases(thorough: bool, what: What) -> Vec<Phase> {
    let mut phases = Vec::new();
    phases.push(conc_phase(
        "two-writers",
        format!(
            "2 clients x 1 write ({N_WRITES}^2 pairs) x {INITIALS} initial contents x shared or own \
             client, all schedules of the storage requests"
        ),
        what,
        |exec| {
            let init = exec.choose(INITIALS);
            let plans = (0..2).map(|t| vec![write(t, exec.choose(N_WRITES))]).collect();
            (init, plans)
        },
        Mode::OwnOrShared,
    ));
    let three: &'static [usize] = if thorough { &[0, 1, 2, 3, 4, 6, 7] } else { &[1, 2, 3] };
    phases.push(conc_phase(
        "three-writers",
        format!(
            "3 clients x 1 write out of {} x 2 initial contents, all schedules of the storage requests",
            three.len()
        ),
        what,
        move |exec| {
            let init = *exec.pick(&[0, 2]);
            let plans = (0..3).map(|t| vec![write(t, *exec.pick(three))]).collect();
            (init, plans)
        },
        Mode::Own,
    ));
    let two: &'static [usize] = if thorough { &[0, 1, 2, 3, 4, 7] } else { &[0, 1, 4] };
    phases.push(conc_phase(
        "two-by-two",
        format!(
            "2 clients x 2 writes out of {} x 2 initial contents, all schedules of the storage requests",
            two.len()
        ),
        what,
        move |exec| {
            let init = *exec.pick(&[0, 2]);
            let plans = (0..2)
                .map(|t| vec![write(t, *exec.pick(two)), write(t + 2, *exec.pick(two))])
                .collect();
            (init, plans)
        },
        Mode::Own,
    ));
    if thorough {
        phases.push(conc_phase(
            "four-writers",
            "4 clients adding to the same new keyword, all schedules of the storage requests".to_string(),
            what,
            move |_| (0, (0..4).map(|t| vec![write(t, 0)]).collect()),
            Mode::Own,
        ));
    }
    phases.push(conc_phase(
        "locks-two-writers",
        format!(
            "2 threads x 1 write ({N_WRITES}^2 pairs) x 2 initial contents, all schedules of the lock \
             operations of the in-memory store"
        ),
        what,
        |exec| {
            let init = *exec.pick(&[0, 2]);
            let plans = (0..2).map(|t| vec![write(t, exec.choose(N_WRITES))]).collect();
            (init, plans)
        },
        Mode::Threads,
    ));
    phases.push(conc_phase(
        "locks-two-by-two",
        "2 threads x 2 and 1 writes, all schedules of the lock operations of the in-memory store"
            .to_string(),
        what,
        move |exec| {
            let two = &[0, 1, 4];
            let init = *exec.pick(&[0, 2]);
            (
                init,
                vec![
                    vec![write(0, *exec.pick(two)), write(2, *exec.pick(two))],
                    vec![write(1, *exec.pick(two))],
                ],
            )
        },
        Mode::Threads,
    ));
    phases.push(volume_phase(what));
    phases.push(size_phase(what, thorough));
    phases.push(contention_phase(what, thorough));
    phases
}

fn search_phases(thorough: bool) -> Vec<Phase> {
    let mut phases = Vec::new();
    let what = What::Searches;
    // First write, second write, first search, second search.
    type Kinds = (&'static [usize], &'static [usize], &'static [usize], &'static [usize]);
    const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
    let kinds: Kinds = if thorough {
        (ALL, ALL, &[0, 1, 2], &[0, 1, 2])
    } else {
        (ALL, &[2, 3], &[0, 1], &[0])
    };
    let inits: &'static [usize] = if thorough { &[0, 1, 2, 3] } else { &[0, 2, 3] };
    phases.push(conc_phase(
        "search-and-writer",
        format!(
            "1 client with 1 write out of {} and maybe another out of {}, 1 client with 1 search out of \
             {} and maybe another, {} initial contents, all schedules of the storage requests",
            kinds.0.len(),
            kinds.1.len(),
            kinds.2.len(),
            inits.len()
        ),
        what,
        move |exec| {
            let init = *exec.pick(inits);
            let mut ws = vec![write(0, *exec.pick(kinds.0))];
            if exec.flag() {
                ws.push(write(1, *exec.pick(kinds.1)));
            }
            let mut ss = vec![search(*exec.pick(kinds.2))];
            if exec.flag() {
                ss.push(search(*exec.pick(kinds.3)));
            }
            (init, vec![ws, ss])
        },
        Mode::Own,
    ));
    phases.push(conc_phase(
        "search-and-writer-sharing",
        format!(
            "1 write out of {N_WRITES} and 1 search out of 3, {INITIALS} initial contents, shared or own \
             client, all schedules of the storage requests"
        ),
        what,
        |exec| {
            let init = exec.choose(INITIALS);
            let ws = vec![write(0, exec.choose(N_WRITES))];
            (init, vec![ws, vec![search(exec.choose(3))]])
        },
        Mode::OwnOrShared,
    ));
    let pairs: &'static [usize] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[1, 2, 3, 4] };
    phases.push(conc_phase(
        "search-and-two-writers",
        format!(
            "2 clients x 1 write out of {}, 1 client with 1 search, 2 initial contents, all schedules of \
             the storage requests",
            pairs.len()
        ),
        what,
        move |exec| {
            let init = *exec.pick(&[0, 2]);
            let mut plans: Vec<Vec<TOp>> =
                (0..2).map(|t| vec![write(t, *exec.pick(pairs))]).collect();
            plans.push(vec![search(exec.choose(2))]);
            (init, plans)
        },
        Mode::Own,
    ));
    phases.push(conc_phase(
        "two-searches-and-two-writers",
        "2 writers of the same keyword, and one client searching it twice, all schedules of the \
         storage requests"
            .to_string(),
        what,
        move |exec| {
            let init = if thorough { *exec.pick(&[0, 1, 2]) } else { 1 };
            let kinds = if thorough { vec![0, 2, 3, 4] } else { vec![0, 3] };
            (
                init,
                vec![
                    vec![write(0, *exec.pick(&kinds))],
                    vec![write(1, *exec.pick(&kinds))],
                    vec![search(0), search(0)],
                ],
            )
        },
        Mode::Own,
    ));
    phases.push(conc_phase(
        "searches-of-two-clients",
        "1 writer with 2 writes, 2 clients searching once, all schedules of the storage requests"
            .to_string(),
        what,
        move |exec| {
            let kinds: &[usize] = if thorough { &[0, 2, 3, 5] } else { &[2, 3] };
            (
                if thorough { *exec.pick(&[1, 2]) } else { 1 },
                vec![
                    vec![write(0, *exec.pick(kinds)), write(1, *exec.pick(kinds))],
                    vec![search(0)],
                    vec![search(0)],
                ],
            )
        },
        Mode::Own,
    ));
    phases.push(conc_phase(
        "locks-search-and-writer",
        "1 thread with 1 or 2 writes, 1 thread with 1 or 2 searches, 2 initial contents, all schedules \
         of the lock operations of the in-memory store"
            .to_string(),
        what,
        move |exec| {
            let init = *exec.pick(&[1, 2]);
            let mut ws = vec![write(0, exec.choose(N_WRITES))];
            let kinds: &[usize] = &[0, 2, 3];
            if exec.flag() {
                ws.push(write(1, *exec.pick(kinds)));
            }
            let mut ss = vec![search(exec.choose(2))];
            if (thorough || ws.len() == 1) && exec.flag() {
                ss.push(search(0));
            }
            (init, vec![ws, ss])
        },
        Mode::Threads,
    ));
    phases.push(volume_phase(what));
    phases.push(size_phase(what, thorough));
    phases
}

/// Sequential part of C13.
fn new_phases(thorough: bool) -> Vec<Phase> {
    let mut phases = Vec::new();
    let alphabet = vec![
        Op::Add(vec![a("a", d("1"))]),
        Op::Add(vec![a("a", d("1")), a("b", d("1"))]),
        Op::Add(vec![a("b", p("a")), a("c", d("2")), a("c", d("3"))]),
        Op::Add(vec![]),
        Op::Del(vec![a("a", d("1"))]),
        Op::Del(vec![a("a", d("1")), a("b", d("1")), a("b", p("a"))]),
        Op::Del(vec![a("c", d("2")), a("d", d("9"))]),
        Op::Search(vec![kw("a"), kw("b"), kw("c"), kw("d")]),
        Op::Compact(Renew::Label, 1.0, Filter::KeepAll),
        Op::Compact(Renew::Key, 0.4, Filter::KeepAll),
        Op::Compact(Renew::Both, 0.0, Filter::KeepAll),
        Op::Compact(Renew::Label, 1.0, Filter::KeepNone),
        Op::Compact(Renew::Back, 1.0, Filter::KeepAll),
    ];
    let depth = if thorough { 5 } else { 4 };
    for n in 1..=depth {
        let alphabet = alphabet.clone();
        phases.push(Phase::new(
            &format!("histories-{n}"),
            format!("all histories of {n} calls over {} calls, each by one of two clients", alphabet.len()),
            move |exec| {
                let mut w = World::new(&["a", "b", "c", "d"]);
                let fxs = [w.sys.client(), w.sys.client()];
                for i in 0..n {
                    let op = exec.pick(&alphabet).clone();
                    let fx = &fxs[usize::from(i > 0 && exec.flag())];
                    exec.say(|| op.show());
                    exec.transitions += 1;
                    let present = w.present(&w.cur());
                    let (given, new) = match &op {
                        Op::Add(x) => (x, w.add(fx, x)?),
                        Op::Del(x) => (x, w.del(fx, x)?),
                        _ => {
                            w.apply(exec, fx, &op)?;
                            continue;
                        }
                    };
                    exec.validated += 1;
                    let want: BTreeSet<Bytes> = given
                        .iter()
                        .map(|(k, _)| k.clone())
                        .filter(|k| !present.contains(k))
                        .collect();
                    if new != want {
                        return Err(format!(
                            "{} reports {} as new instead of {}",
                            op.show(),
                            show_set(&new),
                            show_set(&want)
                        ));
                    }
                }
                exec.state(w.digest());
                Ok(())
            },
        ));
    }
    {
        let top = if thorough { 200 } else { 60 };
        let max = if thorough { 1 << 17 } else { 1 << 14 };
        phases.push(Phase::new(
            "many-keywords",
            format!(
                "a call over 0..{top} keywords, or a size up to {max}, every third one or a prefix already indexed"
            ),
            move |exec| {
                let ns = sizes_to(max).into_iter().filter(|n| *n >= top).collect::<Vec<_>>();
                let n = exec.choose(top + ns.len());
                let n = if n < top { n } else { ns[n - top] };
                let which = exec.choose(4);
                let del = exec.flag();
                exec.say(|| format!("{n} keywords, {which}, delete {del}"));
                let mut w = World::new(&[]);
                let kws: Vec<Bytes> = (0..n).map(|i| format!("kw {i}").into_bytes()).collect();
                w.universe.extend(kws.iter().cloned());
                let fx = w.sys.client();
                let old: BTreeSet<&Bytes> = kws
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| match which {
                        0 => i % 3 == 0,
                        1 => i < &(n / 2),
                        2 => *i + 1 == n,
                        _ => false,
                    })
                    .map(|(_, k)| k)
                    .collect();
                w.add(&fx, &old.iter().map(|k| ((*k).clone(), d("old"))).collect::<Vec<_>>())?;
                let call: Vec<Assoc> = kws.iter().map(|k| (k.clone(), d("new"))).collect();
                let new = if del { w.del(&fx, &call)? } else { w.add(&fx, &call)? };
                let want: BTreeSet<Bytes> =
                    kws.iter().filter(|k| !old.contains(k)).cloned().collect();
                exec.validated += 1;
                exec.transitions += 2;
                if new != want {
                    return Err(format!("{} keywords reported instead of {}", new.len(), want.len()));
                }
                let again = w.add(&fx, &call)?;
                if let Some(k) = again.iter().next() {
                    return Err(format!("{} is reported new again", show(k)));
                }
                exec.state(w.digest());
                Ok(())
            },
        ));
    }
    phases
}

pub fn c07(thorough: bool) -> Check {
    Check {
        id: "C07",
        level: "model_checking",
        rule: "every schedule of the storage requests (and of the lock operations of the in-memory \
               store) of the clients of every plan; for each keyword, a sequential order of the calls, \
               compatible with real time, must leave what the index holds at the end",
        assumptions: vec![
            "storage requests are atomic in the request-level phases (C16 decides it for the bundled \
             store)",
            "clients beyond the bounds (2 to 4 clients, 1 or 2 calls each) behave as those inside",
        ],
        phases: writer_phases(thorough, What::Writers),
    }
}

pub fn c08(thorough: bool) -> Check {
    Check {
        id: "C08",
        level: "model_checking",
        rule: "every schedule of the storage requests (and of the lock operations of the in-memory \
               store) of the clients of every plan; for each keyword, one sequential order of the \
               writes must explain every observation and the final content",
        assumptions: vec![
            "storage requests are atomic in the request-level phases (C16 decides it for the bundled \
             store)",
            "clients beyond the bounds (2 or 3 clients, 1 or 2 calls each) behave as those inside",
        ],
        phases: search_phases(thorough),
    }
}

pub fn c13(thorough: bool) -> Check {
    let mut phases = new_phases(thorough);
    phases.extend(writer_phases(thorough, What::New));
    Check {
        id: "C13",
        level: "model_checking",
        rule: "every history up to the depth and every schedule of concurrent calls; the keywords \
               reported new are compared with those whose entry token was not stored",
        assumptions: vec!["entry tokens are computed by the independent codec"],
        phases,
    }
}



