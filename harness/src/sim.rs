//! Storage seam: `Db` implements the storage interface on top of the real in-memory store; every
//! request is announced to the controller, which decides when and how it is answered.
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
    future::{poll_fn, Future},
    pin::Pin,
    rc::Rc,
    sync::Arc,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

use async_trait::async_trait;
use cosmian_findex::{
    ChainTable, DbInterface, DbInterfaceErrorTrait, DxEnc, EncryptedValue, EntryTable, Findex,
    InMemoryDb, Index, Token, TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens,
    ENTRY_LENGTH, LINK_LENGTH,
};

pub const ET: u8 = 0;
pub const CT: u8 = 1;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SimErr {
    /// The controller made the request fail.
    Injected,
    /// The in-memory store refused the request.
    Backend(String),
}

impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for SimErr {}
impl DbInterfaceErrorTrait for SimErr {}

pub type Bytes = Vec<u8>;
pub type FErr = cosmian_findex::Error<SimErr>;
pub type EtDb = InMemoryDb<ENTRY_LENGTH>;
pub type CtDb = InMemoryDb<LINK_LENGTH>;
pub type Fx =
    Findex<SimErr, EntryTable<ENTRY_LENGTH, Db<ENTRY_LENGTH>>, ChainTable<LINK_LENGTH, Db<LINK_LENGTH>>>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Dump,
    Fetch,
    Upsert,
    Insert,
    Delete,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Grant {
    Serve,
    /// An error is returned and the request has no effect.
    FailBefore,
    /// An error is returned although the request took effect.
    FailAfter,
    /// The caller never resumes; the request has no effect.
    DieBefore,
    /// The caller never resumes although the request took effect.
    DieAfter,
}

pub const FAULTS: [Grant; 4] = [
    Grant::FailBefore,
    Grant::FailAfter,
    Grant::DieBefore,
    Grant::DieAfter,
];

/// What the storage sees of a request.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Rec {
    pub task: usize,
    pub table: u8,
    pub kind: Kind,
    /// Number of tokens (or rows) sent.
    pub n_in: usize,
    /// Number of old values sent (upsert).
    pub n_old: usize,
    /// Number of rows (or tokens) returned.
    pub n_out: usize,
    pub ok: bool,
    /// In which former requests its tokens were seen (recorded with `record_rows`).
    pub refs: u64,
}

impl Rec {
    #[allow(clippy::type_complexity)]
    pub fn shape(&self) -> (u8, Kind, usize, usize, usize, bool, u64) {
        (self.table, self.kind, self.n_in, self.n_old, self.n_out, self.ok, self.refs)
    }

    pub fn show(&self) -> String {
        format!(
            "task {} {} {:?} in={} old={} out={} {}{}",
            self.task,
            if self.table == ET { "ET" } else { "CT" },
            self.kind,
            self.n_in,
            self.n_old,
            self.n_out,
            if self.ok { "ok" } else { "error" },
            if self.refs == 0 { String::new() } else { format!(" tokens seen {:04x}", self.refs & 0xFFFF) }
        )
    }
}

/// A row sent to the storage.
#[derive(Debug, Clone)]
pub struct Sent {
    pub table: u8,
    pub kind: Kind,
    pub token: [u8; 32],
    pub nonce: Bytes,
    pub ciphertext: Bytes,
    pub tag: Bytes,
}

pub const HORIZON: u64 = 5000;

/// A request waiting to be served.
#[derive(Debug, Clone)]
pub struct Wait {
    pub task: usize,
    pub table: u8,
    pub kind: Kind,
    /// First bytes of the tokens concerned, sorted.
    pub tokens: Rc<Vec<u64>>,
    /// First request of an operation.
    pub first: bool,
}

impl Wait {
    fn is_read(&self) -> bool {
        matches!(self.kind, Kind::Dump | Kind::Fetch)
    }

    /// The answers and effects of both requests do not depend on their order.
    pub fn commutes(&self, other: &Self) -> bool {
        if self.table != other.table || (self.is_read() && other.is_read()) {
            return true;
        }
        if self.kind == Kind::Dump || other.kind == Kind::Dump {
            return false;
        }
        let (mut i, mut j) = (0, 0);
        while i < self.tokens.len() && j < other.tokens.len() {
            match self.tokens[i].cmp(&other.tokens[j]) {
                std::cmp::Ordering::Less => i += 1,
                std::cmp::Ordering::Greater => j += 1,
                std::cmp::Ordering::Equal => return false,
            }
        }
        true
    }
}

/// Chooses the request to serve.
pub trait Scheduler {
    /// `None`: stop here (the schedule is equivalent to another one).
    fn pick(&mut self, waiting: &[Wait]) -> Option<(usize, Grant)>;
    /// Called after a request was served; `ended`: it was the last one of its operation.
    fn served(&mut self, _request: &Wait, _ended: bool) {}
}

impl<F: FnMut(&[Wait]) -> (usize, Grant)> Scheduler for F {
    fn pick(&mut self, waiting: &[Wait]) -> Option<(usize, Grant)> {
        Some(self(waiting))
    }
}

#[derive(Default)]
pub struct Ctl {
    pub sched: Cell<bool>,
    pub cur: Cell<usize>,
    waiting: RefCell<BTreeMap<usize, Wait>>,
    /// Number of operations ended by each task.
    ended: RefCell<BTreeMap<usize, u64>>,
    grants: RefCell<BTreeMap<usize, Grant>>,
    /// Pass-through mode: number of requests issued since the last `arm`.
    pub reqno: Cell<usize>,
    plan: RefCell<BTreeMap<usize, Grant>>,
    pub trace: RefCell<Vec<Rec>>,
    pub record_rows: Cell<bool>,
    pub sent: RefCell<Vec<Sent>>,
    /// Tokens sent in requests (recorded with `record_rows`).
    pub tokens_sent: RefCell<Vec<[u8; 32]>>,
    /// For each token of each table, a hash of the requests that mentioned it.
    seen: RefCell<BTreeMap<(u8, [u8; 32]), u64>>,
    n_seen: Cell<u64>,
    /// Logical time: number of granted requests.
    pub clock: Cell<u64>,
    needs_inv: RefCell<BTreeMap<usize, Rc<Cell<u64>>>>,
    /// Order in which fetched rows are returned: 0 native, 1 sorted, 2 reverse sorted.
    pub fetch_order: Cell<u8>,
    total: Cell<u64>,
    /// Requests an execution may issue beyond those of any other, before it is taken not to end.
    pub limit: Cell<u64>,
}

impl Ctl {
    /// Resets the request counter and sets the faults of the next operation.
    pub fn arm(&self, plan: &[(usize, Grant)]) {
        self.reqno.set(0);
        *self.plan.borrow_mut() = plan.iter().copied().collect();
    }

    pub fn take_trace(&self) -> Vec<Rec> {
        std::mem::take(&mut *self.trace.borrow_mut())
    }

    pub fn waiting(&self) -> Vec<Wait> {
        self.waiting.borrow().values().cloned().collect()
    }

    async fn gate<'a>(
        &self,
        table: u8,
        kind: Kind,
        tokens: impl Iterator<Item = &'a Token>,
    ) -> Grant {
        self.total.set(self.total.get() + 1);
        assert!(
            self.total.get() < HORIZON * 20 + self.limit.get(),
            "an execution issues storage requests forever"
        );
        if !self.sched.get() {
            let n = self.reqno.get();
            self.reqno.set(n + 1);
            self.clock.set(self.clock.get() + 1);
            return self.plan.borrow().get(&n).copied().unwrap_or(Grant::Serve);
        }
        let me = self.cur.get();
        let mut tokens = tokens
            .map(|t| u64::from_le_bytes(t[..8].try_into().expect("8 bytes")))
            .collect::<Vec<_>>();
        tokens.sort_unstable();
        let first = self
            .needs_inv
            .borrow()
            .get(&me)
            .map_or(true, |inv| inv.get() == u64::MAX);
        self.waiting.borrow_mut().insert(
            me,
            Wait {
                task: me,
                table,
                kind,
                tokens: Rc::new(tokens),
                first,
            },
        );
        poll_fn(|_| {
            let g = self.grants.borrow_mut().remove(&me);
            match g {
                Some(g) => Poll::Ready(g),
                None => Poll::Pending,
            }
        })
        .await
    }
}

async fn hang<T>() -> T {
    std::future::pending::<()>().await;
    unreachable!()
}

pub struct Db<const N: usize> {
    pub table: u8,
    pub db: Arc<InMemoryDb<N>>,
    pub ctl: Rc<Ctl>,
}

impl<const N: usize> Db<N> {
    fn err(e: impl std::fmt::Debug) -> SimErr {
        SimErr::Backend(format!("{e:?}"))
    }

    /// Hash of the former requests that mentioned these tokens, in the same roles: the same if the tokens are
    /// renamed.
    fn refs(&self, roles: &[Vec<[u8; 32]>]) -> u64 {
        use std::hash::{Hash, Hasher};
        let id = self.ctl.n_seen.get() + 1;
        self.ctl.n_seen.set(id);
        let hash = |x: &(u64, u64, u64)| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            x.hash(&mut h);
            h.finish()
        };
        let mut seen = self.ctl.seen.borrow_mut();
        let mut per_token: BTreeMap<[u8; 32], u64> = BTreeMap::new();
        for (i, role) in roles.iter().enumerate() {
            for t in role {
                // Commutative, as a role is a set.
                *per_token.entry(*t).or_default() |= 1 << i;
            }
        }
        let mut all = 0u64;
        for (t, roles) in per_token {
            let s = seen.entry((self.table, t)).or_default();
            all = all.wrapping_add(hash(&(*s, roles, 0)));
            *s = hash(&(*s, roles, id));
        }
        all | 1
    }

    fn rec(
        &self,
        kind: Kind,
        n_in: usize,
        n_old: usize,
        n_out: usize,
        ok: bool,
        roles: impl FnOnce() -> Vec<Vec<[u8; 32]>>,
    ) {
        let refs = if self.ctl.record_rows.get() { self.refs(&roles()) } else { 0 };
        self.ctl.trace.borrow_mut().push(Rec {
            task: self.ctl.cur.get(),
            table: self.table,
            kind,
            n_in,
            n_old,
            n_out,
            ok,
            refs,
        });
    }

    /// The tokens, when they are recorded.
    fn raw<'a>(&self, tokens: impl Iterator<Item = &'a Token>) -> Vec<[u8; 32]> {
        if self.ctl.record_rows.get() {
            raw(tokens)
        } else {
            Vec::new()
        }
    }

    fn note_tokens<'a>(&self, tokens: impl Iterator<Item = &'a Token>) {
        if self.ctl.record_rows.get() {
            let mut s = self.ctl.tokens_sent.borrow_mut();
            for t in tokens {
                s.push(<[u8; 32]>::from(*t));
            }
        }
    }

    fn note_rows(&self, kind: Kind, rows: &TokenToEncryptedValueMap<N>) {
        if self.ctl.record_rows.get() {
            let mut s = self.ctl.sent.borrow_mut();
            for (t, v) in rows.iter() {
                s.push(Sent {
                    table: self.table,
                    kind,
                    token: <[u8; 32]>::from(*t),
                    nonce: v.nonce.0.to_vec(),
                    ciphertext: v.ciphertext.to_vec(),
                    tag: v.tag.to_vec(),
                });
            }
        }
    }
}

#[async_trait(?Send)]
impl<const N: usize> DbInterface<N> for Db<N> {
    type Error = SimErr;

    async fn dump_tokens(&self) -> Result<Tokens, SimErr> {
        let g = self.ctl.gate(self.table, Kind::Dump, std::iter::empty()).await;
        let res = match g {
            Grant::FailBefore => Err(SimErr::Injected),
            Grant::DieBefore => hang().await,
            _ => self.db.dump_tokens().await.map_err(Self::err),
        };
        self.rec(Kind::Dump, 0, 0, res.as_ref().map_or(0, |r| r.len()), res.is_ok(), || {
            vec![res.as_ref().map_or(Vec::new(), |r| raw(r.iter()))]
        });
        match g {
            Grant::FailAfter => Err(SimErr::Injected),
            Grant::DieAfter => hang().await,
            _ => res,
        }
    }

    async fn fetch(&self, tokens: Tokens) -> Result<TokenWithEncryptedValueList<N>, SimErr> {
        let g = self.ctl.gate(self.table, Kind::Fetch, tokens.iter()).await;
        let n = tokens.len();
        self.note_tokens(tokens.iter());
        let asked = self.raw(tokens.iter());
        let res = match g {
            Grant::FailBefore => Err(SimErr::Injected),
            Grant::DieBefore => hang().await,
            _ => self.db.fetch(tokens).await.map_err(Self::err),
        };
        let res = res.map(|rows| {
            let mut rows: Vec<(Token, EncryptedValue<N>)> = rows.into();
            match self.ctl.fetch_order.get() {
                0 => (),
                o => {
                    rows.sort_by_key(|(t, _)| <[u8; 32]>::from(*t));
                    if o == 2 {
                        rows.reverse();
                    }
                }
            }
            TokenWithEncryptedValueList::from(rows)
        });
        self.rec(Kind::Fetch, n, 0, res.as_ref().map_or(0, |r| r.len()), res.is_ok(), || {
            vec![asked, res.as_ref().map_or(Vec::new(), |r| raw(r.iter().map(|(t, _)| t)))]
        });
        match g {
            Grant::FailAfter => Err(SimErr::Injected),
            Grant::DieAfter => hang().await,
            _ => res,
        }
    }

    async fn upsert(
        &self,
        old: TokenToEncryptedValueMap<N>,
        new: TokenToEncryptedValueMap<N>,
    ) -> Result<TokenToEncryptedValueMap<N>, SimErr> {
        let g = self.ctl.gate(self.table, Kind::Upsert, old.keys().chain(new.keys())).await;
        let (n, o) = (new.len(), old.len());
        self.note_rows(Kind::Upsert, &new);
        let (olds, news) = (self.raw(old.keys()), self.raw(new.keys()));
        let res = match g {
            Grant::FailBefore => Err(SimErr::Injected),
            Grant::DieBefore => hang().await,
            _ => self.db.upsert(old, new).await.map_err(Self::err),
        };
        self.rec(Kind::Upsert, n, o, res.as_ref().map_or(0, |r| r.len()), res.is_ok(), || {
            vec![olds, news, res.as_ref().map_or(Vec::new(), |r| raw(r.keys()))]
        });
        match g {
            Grant::FailAfter => Err(SimErr::Injected),
            Grant::DieAfter => hang().await,
            _ => res,
        }
    }

    async fn insert(&self, values: TokenToEncryptedValueMap<N>) -> Result<(), SimErr> {
        let g = self.ctl.gate(self.table, Kind::Insert, values.keys()).await;
        let n = values.len();
        self.note_rows(Kind::Insert, &values);
        let news = self.raw(values.keys());
        let res = match g {
            Grant::FailBefore => Err(SimErr::Injected),
            Grant::DieBefore => hang().await,
            _ => self.db.insert(values).await.map_err(Self::err),
        };
        self.rec(Kind::Insert, n, 0, 0, res.is_ok(), || vec![news]);
        match g {
            Grant::FailAfter => Err(SimErr::Injected),
            Grant::DieAfter => hang().await,
            _ => res,
        }
    }

    async fn delete(&self, tokens: Tokens) -> Result<(), SimErr> {
        let g = self.ctl.gate(self.table, Kind::Delete, tokens.iter()).await;
        let n = tokens.len();
        self.note_tokens(tokens.iter());
        let gone = self.raw(tokens.iter());
        let res = match g {
            Grant::FailBefore => Err(SimErr::Injected),
            Grant::DieBefore => hang().await,
            _ => self.db.delete(tokens).await.map_err(Self::err),
        };
        self.rec(Kind::Delete, n, 0, 0, res.is_ok(), || vec![gone]);
        match g {
            Grant::FailAfter => Err(SimErr::Injected),
            Grant::DieAfter => hang().await,
            _ => res,
        }
    }
}

fn raw<'a>(tokens: impl Iterator<Item = &'a Token>) -> Vec<[u8; 32]> {
    tokens.map(|t| <[u8; 32]>::from(*t)).collect()
}

/// Raw content of a table.
pub type Rows<const N: usize> = std::collections::HashMap<Token, EncryptedValue<N>>;

/// A pair of tables and the controller of the requests sent to them.
pub struct Sys {
    pub et: Arc<EtDb>,
    pub ct: Arc<CtDb>,
    pub ctl: Rc<Ctl>,
}

#[derive(Clone, PartialEq)]
pub struct Snap {
    pub et: Rows<ENTRY_LENGTH>,
    pub ct: Rows<LINK_LENGTH>,
}

impl Snap {
    pub fn et_set(&self) -> BTreeMap<[u8; 32], Bytes> {
        self.et
            .iter()
            .map(|(t, v)| (<[u8; 32]>::from(*t), Bytes::from(v)))
            .collect()
    }
    pub fn ct_set(&self) -> BTreeMap<[u8; 32], Bytes> {
        self.ct
            .iter()
            .map(|(t, v)| (<[u8; 32]>::from(*t), Bytes::from(v)))
            .collect()
    }
}

impl Default for Sys {
    fn default() -> Self {
        Self::new()
    }
}

impl Sys {
    pub fn new() -> Self {
        Self {
            et: Arc::new(InMemoryDb::default()),
            ct: Arc::new(InMemoryDb::default()),
            ctl: Rc::new(Ctl::default()),
        }
    }

    /// Same tables, with another controller (for another thread).
    pub fn share(et: Arc<EtDb>, ct: Arc<CtDb>) -> Self {
        Self {
            et,
            ct,
            ctl: Rc::new(Ctl::default()),
        }
    }

    /// A new client of these tables.
    pub fn client(&self) -> Fx {
        Findex::new(
            EntryTable::setup(Db {
                table: ET,
                db: self.et.clone(),
                ctl: self.ctl.clone(),
            }),
            ChainTable::setup(Db {
                table: CT,
                db: self.ct.clone(),
                ctl: self.ctl.clone(),
            }),
        )
    }

    pub fn snap(&self) -> Snap {
        Snap {
            et: self.et.lock().expect("poisoned entry table").0.clone(),
            ct: self.ct.lock().expect("poisoned chain table").0.clone(),
        }
    }

    pub fn restore(&self, s: &Snap) {
        *self.et.lock().expect("poisoned entry table") = s.et.clone().into();
        *self.ct.lock().expect("poisoned chain table") = s.ct.clone().into();
    }

    /// Independent copy of the tables with its own controller.
    pub fn fork(&self) -> Self {
        let f = Self::new();
        f.restore(&self.snap());
        f
    }
}

fn noop_waker() -> Waker {
    const VTABLE: RawWakerVTable = RawWakerVTable::new(|_| RAW, |_| (), |_| (), |_| ());
    const RAW: RawWaker = RawWaker::new(std::ptr::null(), &VTABLE);
    unsafe { Waker::from_raw(RAW) }
}

pub fn poll_once<T>(fut: &mut Pin<Box<dyn Future<Output = T> + '_>>) -> Option<T> {
    let waker = noop_waker();
    let mut cx = Context::from_waker(&waker);
    match fut.as_mut().poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

/// Runs a future in pass-through mode. `None`: the caller died (see `Grant::Die*`).
pub fn run<'a, T>(fut: impl Future<Output = T> + 'a) -> Option<T> {
    let mut fut: Pin<Box<dyn Future<Output = T> + 'a>> = Box::pin(fut);
    poll_once(&mut fut)
}

/// Runs a future that cannot be interrupted.
pub fn go<'a, T>(fut: impl Future<Output = T> + 'a) -> T {
    run(fut).expect("the operation never answers although all its requests were answered")
}

/// Logical interval of an operation: time of its first and last storage requests.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Interval {
    pub inv: u64,
    pub resp: u64,
}

impl Interval {
    /// True if this operation was answered before the other one began.
    pub fn before(&self, other: &Self) -> bool {
        self.resp < other.inv
    }
}

/// Runs an operation of the current task and returns its logical interval. The operation begins with
/// its first granted request.
pub async fn timed<T>(ctl: &Ctl, fut: impl Future<Output = T>) -> (T, Interval) {
    let inv = Rc::new(Cell::new(u64::MAX));
    let me = ctl.cur.get();
    ctl.needs_inv.borrow_mut().insert(me, inv.clone());
    let res = fut.await;
    ctl.needs_inv.borrow_mut().remove(&me);
    *ctl.ended.borrow_mut().entry(me).or_default() += 1;
    let resp = ctl.clock.get();
    let inv = inv.get().min(resp);
    (res, Interval { inv, resp })
}

pub enum TaskEnd<T> {
    Done(T),
    /// The task was interrupted by a `Die*` grant.
    Died,
}

impl<T> TaskEnd<T> {
    pub fn done(self) -> Option<T> {
        match self {
            Self::Done(t) => Some(t),
            Self::Died => None,
        }
    }
}

/// Interleaves the storage requests of several tasks. The scheduler chooses the request to serve among
/// the waiting ones (as an index in the given list), and how. `None`: the scheduler stopped.
pub fn run_tasks<'a, T>(
    ctl: &Ctl,
    tasks: Vec<Pin<Box<dyn Future<Output = T> + 'a>>>,
    scheduler: &mut dyn Scheduler,
) -> Option<Vec<TaskEnd<T>>> {
    ctl.sched.set(true);
    let n = tasks.len();
    let mut tasks: Vec<Option<_>> = tasks.into_iter().map(Some).collect();
    let mut ends: Vec<Option<TaskEnd<T>>> = (0..n).map(|_| None).collect();
    for (i, slot) in tasks.iter_mut().enumerate() {
        ctl.cur.set(i);
        if let Some(v) = poll_once(slot.as_mut().unwrap()) {
            ends[i] = Some(TaskEnd::Done(v));
            *slot = None;
        }
    }
    let mut steps = 0;
    let mut stopped = false;
    loop {
        let waiting = ctl.waiting();
        if waiting.is_empty() {
            break;
        }
        steps += 1;
        assert!(steps < HORIZON, "livelock: the tasks issue requests forever");
        let Some((i, grant)) = scheduler.pick(&waiting) else {
            stopped = true;
            break;
        };
        let t = waiting[i].task;
        let ended = ctl.ended.borrow().get(&t).copied().unwrap_or(0);
        ctl.cur.set(t);
        ctl.waiting.borrow_mut().remove(&t);
        ctl.clock.set(ctl.clock.get() + 1);
        if let Some(inv) = ctl.needs_inv.borrow().get(&t) {
            if inv.get() == u64::MAX {
                inv.set(ctl.clock.get());
            }
        }
        if grant == Grant::DieBefore {
            // The caller is dropped while waiting: same as a cancellation.
            tasks[t] = None;
            ends[t] = Some(TaskEnd::Died);
            scheduler.served(&waiting[i], true);
            continue;
        }
        ctl.grants.borrow_mut().insert(t, grant);
        let done = poll_once(tasks[t].as_mut().expect("waiting tasks are alive"));
        if grant == Grant::DieAfter {
            tasks[t] = None;
            ctl.waiting.borrow_mut().remove(&t);
            ends[t] = Some(TaskEnd::Died);
            scheduler.served(&waiting[i], true);
            continue;
        }
        let over = done.is_some();
        if let Some(v) = done {
            ends[t] = Some(TaskEnd::Done(v));
            tasks[t] = None;
        } else {
            assert!(
                ctl.waiting.borrow().contains_key(&t),
                "deadlock: a task waits for something else than the storage"
            );
        }
        let ended = over || ctl.ended.borrow().get(&t).copied().unwrap_or(0) != ended;
        scheduler.served(&waiting[i], ended);
    }
    if stopped {
        tasks.clear();
    }
    assert!(
        tasks.iter().all(Option::is_none),
        "deadlock: a task waits for something else than the storage"
    );
    ctl.sched.set(false);
    ctl.waiting.borrow_mut().clear();
    ctl.grants.borrow_mut().clear();
    ctl.needs_inv.borrow_mut().clear();
    ctl.cur.set(0);
    if stopped {
        return None;
    }
    Some(ends.into_iter().map(|e| e.expect("ended")).collect())
}

/// Token set of a table.
pub fn tokens<const N: usize>(rows: &Rows<N>) -> BTreeSet<[u8; 32]> {
    rows.keys().map(|t| <[u8; 32]>::from(*t)).collect()
}
