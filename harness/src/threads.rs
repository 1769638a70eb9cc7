//! Lock-level exploration: real threads whose mutex operations (hook `verif_sync`) are scheduled one
//! at a time, in every possible order.
use std::{
    cell::RefCell,
    collections::HashMap,
    sync::{Arc, Condvar, Mutex},
};

use cosmian_findex::verif_sync::{set_hook, Event};

use crate::{explore::Exec, rng};

#[derive(Default)]
struct State {
    /// Threads waiting to lock a mutex.
    waiting: HashMap<usize, usize>,
    /// Locked mutexes and their owners.
    held: HashMap<usize, usize>,
    granted: Option<usize>,
    running: usize,
    done: usize,
    clock: u64,
    first: HashMap<usize, u64>,
    abort: bool,
}

pub struct Sched {
    st: Mutex<State>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(usize, Arc<Sched>)>> = const { RefCell::new(None) };
}

struct Aborted;

fn hook(event: Event, addr: usize) {
    let me = ME.with(|m| m.borrow().clone());
    let Some((id, sched)) = me else { return };
    let mut st = sched.st.lock().unwrap();
    match event {
        Event::BeforeLock => {
            st.waiting.insert(id, addr);
            st.running -= 1;
            sched.cv.notify_all();
            while st.granted != Some(id) {
                if st.abort {
                    drop(st);
                    ME.with(|m| *m.borrow_mut() = None);
                    std::panic::panic_any(Aborted);
                }
                st = sched.cv.wait(st).unwrap();
            }
            st.granted = None;
            st.waiting.remove(&id);
            st.running += 1;
            st.held.insert(addr, id);
            st.clock += 1;
            let c = st.clock;
            st.first.entry(id).or_insert(c);
        }
        Event::AfterUnlock => {
            st.held.remove(&addr);
        }
    }
}

/// Marks the start of an operation of the current thread.
pub fn begin() {
    ME.with(|m| {
        if let Some((id, s)) = &*m.borrow() {
            s.st.lock().unwrap().first.remove(id);
        }
    });
}

/// Logical interval (first and last lock) of the operation of the current thread since `begin`.
pub fn end() -> (u64, u64) {
    ME.with(|m| {
        m.borrow().as_ref().map_or((0, 0), |(id, s)| {
            let st = s.st.lock().unwrap();
            (st.first.get(id).copied().unwrap_or(st.clock), st.clock)
        })
    })
}

pub struct Threads<T> {
    pub results: Vec<T>,
    pub steps: u64,
}

/// Runs the bodies on their own threads. Returns an error on deadlock.
pub fn run<T: Send + 'static>(
    exec: &mut Exec,
    seed: u64,
    bodies: Vec<Box<dyn FnOnce() -> T + Send>>,
) -> Result<Threads<T>, String> {
    set_hook(hook);
    let n = bodies.len();
    let sched = Arc::new(Sched {
        st: Mutex::new(State {
            running: 0,
            ..State::default()
        }),
        cv: Condvar::new(),
    });
    // Threads start one after the other: each runs alone until its first lock.
    let handles: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, body)| {
            let sched = sched.clone();
            let sched2 = sched.clone();
            sched.st.lock().unwrap().running += 1;
            let handle = std::thread::spawn(move || {
                rng::seed_thread(rng::mix(seed ^ (i as u64 + 1) * 0x1_0001));
                ME.with(|m| *m.borrow_mut() = Some((i, sched.clone())));
                // Announce the end even when the body panics.
                struct End(Arc<Sched>);
                impl Drop for End {
                    fn drop(&mut self) {
                        ME.with(|m| *m.borrow_mut() = None);
                        if let Ok(mut st) = self.0.st.lock() {
                            st.running = st.running.saturating_sub(1);
                            st.done += 1;
                            self.0.cv.notify_all();
                        }
                    }
                }
                let end = End(sched);
                let res = body();
                drop(end);
                res
            });
            let mut st = sched2.st.lock().unwrap();
            while st.running > 0 {
                st = sched2.cv.wait(st).unwrap();
            }
            drop(st);
            handle
        })
        .collect();
    let mut steps = 0;
    let mut deadlock = false;
    {
        let mut st = sched.st.lock().unwrap();
        loop {
            while st.running > 0 || st.granted.is_some() {
                st = sched.cv.wait(st).unwrap();
            }
            if st.done == n {
                break;
            }
            let mut enabled = st
                .waiting
                .iter()
                .filter(|(_, addr)| !st.held.contains_key(addr))
                .map(|(id, _)| *id)
                .collect::<Vec<_>>();
            enabled.sort_unstable();
            if enabled.is_empty() || steps > 4000 {
                deadlock = true;
                st.abort = true;
                sched.cv.notify_all();
                break;
            }
            steps += 1;
            let k = exec.choose(enabled.len());
            st.granted = Some(enabled[k]);
            sched.cv.notify_all();
        }
    }
    let mut results = Vec::new();
    let mut failed = false;
    for h in handles {
        match h.join() {
            Ok(r) => results.push(r),
            Err(_) => failed = true,
        }
    }
    exec.transitions += steps;
    if deadlock {
        return Err("deadlock or livelock between threads".to_string());
    }
    if failed {
        return Err("a thread panicked".to_string());
    }
    Ok(Threads { results, steps })
}
