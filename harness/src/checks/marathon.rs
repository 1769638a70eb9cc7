//! Long histories in which every sequence of a few calls occurs (de Bruijn sequences), some of the calls meeting a
//! fault: what a client keeps from one call to the next, and in particular from a call that failed, shows.
use super::{
    c09::{faulty_at, holds, universe, verdict, FAIL},
    common::{compare, de_bruijn, Filter, Op, Renew, World},
};
use crate::{
    explore::{Exec, Phase},
    model::{a, d, kw, p},
    ops,
    sim::{Fx, Grant, TaskEnd, FAULTS},
};

/// A call, and the fault that one of its storage requests meets.
#[derive(Clone)]
struct Letter {
    op: Op,
    fault: Option<(usize, Grant)>,
}

impl Letter {
    fn show(&self) -> String {
        match self.fault {
            None => self.op.show(),
            Some((n, g)) => format!("{}, request {n}: {g:?}", self.op.show()),
        }
    }
}

/// The property the histories are judged by.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Judge {
    /// C09: adds and deletes are all or nothing.
    Writes,
    /// C10: a compaction loses nothing.
    Compactions,
    /// C18: failures are reported.
    Errors,
}

fn letters(judge: Judge) -> Vec<Letter> {
    let long = "a value that needs more than a single link to be stored: 80 bytes, or 5 blocks.";
    let writes = [
        Op::Add(vec![a("a", d("x"))]),
        Op::Add(vec![a("a", d("x")), a("b", d(long)), a("c", p("a"))]),
        Op::Add(vec![a("b", p("c")), a("b", d("y"))]),
        Op::Del(vec![a("a", d("x")), a("b", d("y"))]),
        Op::Del(vec![a("c", p("a")), a("b", d(long))]),
    ];
    let compactions = [
        Op::Compact(Renew::Label, 1.0, Filter::KeepAll),
        Op::Compact(Renew::Both, 0.0, Filter::KeepAll),
        Op::Compact(Renew::Key, 0.4, Filter::KeepAll),
    ];
    let searches = [Op::Search(vec![kw("b")]), Op::Search(vec![kw("a"), kw("c"), kw("nothing")])];
    let mut out = Vec::new();
    let mut push = |ops: &[Op], requests: usize, kinds: &[Grant]| {
        for op in ops {
            let faults = (0..requests).flat_map(|n| kinds.iter().map(move |g| Some((n, *g))));
            out.extend(std::iter::once(None).chain(faults).map(|fault| Letter { op: op.clone(), fault }));
        }
    };
    match judge {
        Judge::Writes => {
            push(&writes, 3, &FAULTS);
            // Spread among the others, for the chains to remain short.
            for (i, op) in compactions.iter().cycle().take(12).enumerate() {
                out.insert(i * 6 + 5, Letter { op: op.clone(), fault: None });
            }
        }
        Judge::Compactions => {
            push(&writes, 0, &[]);
            push(&compactions, 6, &FAULTS);
        }
        Judge::Errors => {
            push(&writes[1..4], 3, &FAIL);
            push(&searches, 3, &FAIL);
            push(&compactions, 6, &FAIL);
        }
    }
    out
}

/// Every sequence of `order` calls, among those of the property, in one history.
pub fn phase(judge: Judge, order: usize, seeds: usize) -> Phase {
    let letters = letters(judge);
    let n = letters.len();
    Phase::new(
        "marathon",
        format!(
            "histories of {} calls in which every sequence of {order} out of {n} (calls and the fault one of their requests \
             meets) occurs, 4 renumberings, {seeds} seeds, by one long-lived client or by 3 in turn",
            n.pow(order as u32) + order - 1
        ),
        move |exec| {
            super::common::vary_seed(exec, seeds);
            let shift = exec.choose(4) * n / 4;
            let clients = if exec.flag() { 3 } else { 1 };
            let mut w = World::new(&["a", "b", "c"]);
            w.sys.ctl.limit.set(1 << 40);
            let fxs = (0..clients).map(|_| w.sys.client()).collect::<Vec<_>>();
            let seq = de_bruijn(n, order);
            for (i, x) in seq.iter().chain(&seq[..order - 1]).enumerate() {
                let letter = &letters[(x + shift) % n];
                call(exec, &mut w, &fxs[i % clients], letter, judge)
                    .map_err(|e| format!("call {i}, {}: {e}", letter.show()))?;
                let n = w.creds.len();
                if n > 2 {
                    w.creds.drain(..n - 2);
                }
            }
            exec.state(w.digest());
            Ok(())
        },
    )
}

fn call(exec: &mut Exec, w: &mut World, fx: &Fx, letter: &Letter, judge: Judge) -> Result<(), String> {
    let ctl = w.sys.ctl.clone();
    let cred = w.cur();
    let kws = universe(w);
    let snap = w.sys.snap();
    ctl.take_trace();
    // Whether it fails is the matter of C18 only.
    let errors = judge == Judge::Errors;
    match &letter.op {
        Op::Search(ks) => {
            let ran = faulty_at(exec, &ctl, ops::search(fx, &cred, ks), letter.fault);
            if errors {
                verdict("search", &ran, true)?;
            }
            if let TaskEnd::Done(Ok(found)) = &ran.end {
                exec.validated += 1;
                compare(&w.model, ks, found)?;
            }
        }
        Op::Add(x) | Op::Del(x) => {
            let add = matches!(letter.op, Op::Add(_));
            let ran = faulty_at(exec, &ctl, ops::write(fx, &cred, add, x), letter.fault);
            if errors {
                verdict("write", &ran, true)?;
            }
            let before = w.model.clone();
            if add {
                w.model.add(x);
            } else {
                w.model.del(x);
            }
            exec.validated += 1;
            let done = matches!(ran.end, TaskEnd::Done(Ok(_)));
            if letter.fault.is_none() && !done && !errors {
                return Err("it fails although no request did".into());
            }
            if !holds(fx, &cred, &w.model, &kws) {
                w.model = before;
                if done || !holds(fx, &cred, &w.model, &kws) {
                    if judge == Judge::Writes {
                        return Err("the content is neither the one before the call nor the one after it".into());
                    }
                    w.sys.restore(&snap);
                }
            }
        }
        Op::Compact(renew, rate, _) => {
            let new = w.next_cred(*renew);
            let ran = faulty_at(exec, &ctl, ops::compact(fx, &cred, &new, *rate), letter.fault);
            if errors {
                verdict("compact", &ran, false)?;
            }
            exec.validated += 1;
            let done = matches!(ran.end, TaskEnd::Done(Ok(())));
            if letter.fault.is_none() && !done && !errors {
                return Err("it fails although no request did".into());
            }
            let by_new = holds(fx, &new, &w.model, &kws);
            let by_old = holds(fx, &cred, &w.model, &kws);
            if !by_new && (done || !by_old) {
                if judge == Judge::Compactions {
                    return Err(format!(
                        "{}: the content is found neither under the old credentials nor under the new ones",
                        if done { "a success" } else { "a failure" }
                    ));
                }
                w.sys.restore(&snap);
            } else if done || !by_old {
                w.creds.push(new);
            } else if by_new {
                // Both hold it, and maybe two entries of each keyword are stored: go back.
                w.sys.restore(&snap);
            }
        }
    }
    Ok(())
}
