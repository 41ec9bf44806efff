//! Concurrent clients of one database (C25): recorded histories are
//! explained by a serial order (Wing & Gong's search with the reference model
//! as the specification), contended workloads by their invariants.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Barrier;
use std::time::Duration;

use bonsaidb::client::{AsyncRemoteDatabase, BlockingClient, BlockingRemoteDatabase};
use bonsaidb::server::DefaultPermissions;
use bonsaidb_core::connection::{AccessPolicy, AsyncLowLevelConnection, AsyncStorageConnection, Bound, Connection, LowLevelConnection, Range, Sort, StorageConnection};
use bonsaidb_core::document::{CollectionDocument, DocumentId, Header, OwnedDocument};
use bonsaidb_core::keyvalue::{AsyncKeyValue, Command, KeyOperation, KeyStatus, KeyValue, Numeric, Output, SetCommand, Value};
use bonsaidb_core::schema::view::map::Serialized;
use bonsaidb_core::schema::SerializedCollection;
use bonsaidb_core::transaction::{Changes, OperationResult, Transaction};
use bonsaidb_core::{permissions::Permissions, Error};
use bonsaidb_local::{AsyncDatabase, Database, Storage};

use crate::denied::rt;
use crate::engine::*;
use crate::fix::*;
use crate::hist::LogEntry;
use crate::kv::{classify, gen_kop, same_value, KEntry, KModel, KResult, KvKey};
use crate::ops::transaction;
use crate::remote::Remote;
use crate::{ensure, ensure_eq, fail};

/// A database through one of its interfaces.
pub enum D {
    Blocking(Database),
    Async(AsyncDatabase),
    Client(AsyncRemoteDatabase),
    BlockingClient(BlockingRemoteDatabase),
}
macro_rules! on {
    ($d:expr, $x:ident => $call:expr) => {
        match $d {
            D::Blocking($x) => $call,
            D::BlockingClient($x) => $call,
            D::Async($x) => rt().block_on($call),
            D::Client($x) => rt().block_on($call),
        }
    };
}
impl D {
    fn apply(&self, t: Transaction) -> Result<Vec<OperationResult>, Error> {
        on!(self, x => x.apply_transaction(t))
    }
    fn get(&self, c: Col, id: DocumentId) -> Result<Option<OwnedDocument>, Error> {
        let name = c.name();
        on!(self, x => x.get_from_collection(id, &name))
    }
    fn get_multiple(&self, c: Col, ids: &[DocumentId]) -> Result<Vec<OwnedDocument>, Error> {
        let name = c.name();
        on!(self, x => x.get_multiple_from_collection(ids, &name))
    }
    fn list(&self, c: Col, r: Range<DocumentId>) -> Result<Vec<OwnedDocument>, Error> {
        let name = c.name();
        on!(self, x => x.list_from_collection(r, Sort::Ascending, None, &name))
    }
    fn count(&self, c: Col, r: Range<DocumentId>) -> Result<u64, Error> {
        let name = c.name();
        on!(self, x => x.count_from_collection(r, &name))
    }
    fn query(&self, v: V) -> Result<Vec<Serialized>, Error> {
        let name = v.name();
        on!(self, x => x.query_by_name(&name, None, Sort::Ascending, None, AccessPolicy::UpdateBefore))
    }
    fn kv(&self, op: KeyOperation) -> Result<Output, Error> {
        on!(self, x => x.execute_key_operation(op))
    }
    pub fn kind(&self) -> &'static str {
        match self {
            D::Blocking(_) => "blocking",
            D::Async(_) => "async",
            D::Client(_) => "client",
            D::BlockingClient(_) => "blocking client",
        }
    }
}

/// The interfaces of a case. Handles are dropped before the server.
struct Stage {
    handles: Vec<D>,
    db: Option<Database>,
    storage: Option<Storage>,
    remote: Option<Remote>,
    /// Nothing is on disk.
    memory: bool,
    /// Opening the database starts tasks which check and update the views.
    integrity: bool,
    scratch: Scratch,
}
fn stage_open(path: &std::path::Path, memory: bool, integrity: bool) -> Res<Storage> {
    use bonsaidb_local::config::Builder;
    let c = config(path).check_view_integrity_on_open(integrity);
    Storage::open(if memory { c.memory_only() } else { c }).or_fail("opening storage")
}
impl Stage {
    fn new(s: &mut Source, threads: usize, ctx: &mut Ctx) -> Res<Self> {
        let scratch = Scratch::new();
        let path = scratch.path("db");
        let with_server = s.chance(1, 5);
        let (memory, integrity) = (!with_server && s.chance(1, 6), !with_server && s.chance(1, 3));
        if memory || integrity {
            ctx.log(format!("in memory: {memory}, integrity checks: {integrity}"));
        }
        let (storage, remote) = if with_server {
            let quic = s.chance(1, 2);
            let r = Remote::start(config(&path), DefaultPermissions::from(Permissions::allow_all()), quic, |c| c)?;
            (r.storage.clone(), Some(r))
        } else {
            (stage_open(&path, memory, integrity)?, None)
        };
        storage.create_database::<Main>("main", false).or_fail("create_database")?;
        let db = storage.database::<Main>("main").or_fail("database")?;
        let mut handles = vec![];
        let mut shared = None;
        for t in 0..threads {
            let kind = if remote.is_some() { s.weighted(&[2, 2, 4, 2]) } else { s.weighted(&[3, 1]) };
            let h = match (kind, &remote) {
                (1, _) => D::Async(db.clone().into_async_with_runtime(rt().handle().clone())),
                (k @ (2 | 3), Some(r)) => {
                    let q = r.quic().is_some() && s.bool();
                    // clients of their own, or one connection for several threads
                    let client = match (&shared, s.bool()) {
                        (Some(c), true) => bonsaidb::client::AsyncClient::clone(c),
                        _ => r.client(q)?,
                    };
                    shared = Some(client.clone());
                    if k == 2 {
                        D::Client(rt().block_on(client.database::<Main>("main")).or_fail("database")?)
                    } else {
                        D::BlockingClient(BlockingClient::from(client).database::<Main>("main").or_fail("database")?)
                    }
                }
                // another handle of the same database
                _ => D::Blocking(storage.database::<Main>("main").or_fail("database")?),
            };
            ctx.count(match &h {
                D::Blocking(_) => "threads_blocking",
                D::Async(_) => "threads_async",
                D::Client(_) => "threads_client",
                D::BlockingClient(_) => "threads_blocking_client",
            });
            ctx.log(format!("thread {t}: {}", h.kind()));
            handles.push(h);
        }
        Ok(Stage { handles, db: Some(db), storage: Some(storage), remote, memory, integrity, scratch })
    }
    fn db(&self) -> &Database {
        self.db.as_ref().expect("HARNESS: open")
    }
    /// Runs one closure per handle at the same time.
    fn run<T: Send>(&self, f: impl Fn(usize, &D) -> Res<T> + Sync) -> Res<Vec<T>> {
        let barrier = Barrier::new(self.handles.len());
        let results: Vec<Res<T>> = std::thread::scope(|scope| {
            let hs: Vec<_> = self
                .handles
                .iter()
                .enumerate()
                .map(|(t, d)| {
                    let (f, barrier) = (&f, &barrier);
                    scope.spawn(move || {
                        barrier.wait();
                        catch(|| f(t, d)).unwrap_or_else(|p| Err(Failure::new(format!("thread {t} panicked: {p}"))))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("HARNESS: thread")).collect()
        });
        results.into_iter().collect()
    }
    /// Closes everything and opens the storage again.
    fn reopen(&mut self) -> Res<bool> {
        if self.remote.is_some() || self.memory {
            return Ok(false);
        }
        let kinds: Vec<bool> = self.handles.iter().map(|h| matches!(h, D::Async(_))).collect();
        self.handles.clear();
        self.storage = None;
        let path = self.scratch.path("db");
        self.db = None;
        let storage = stage_open(&path, self.memory, self.integrity)?;
        for asy in kinds {
            let db = storage.database::<Main>("main").or_fail("database")?;
            self.handles.push(if asy { D::Async(db.into_async_with_runtime(rt().handle().clone())) } else { D::Blocking(db) });
        }
        self.db = Some(storage.database::<Main>("main").or_fail("database")?);
        self.storage = Some(storage);
        Ok(true)
    }
}

fn spin(us: u64) {
    if us == 0 {
        return;
    }
    let until = std::time::Instant::now() + Duration::from_micros(us);
    while std::time::Instant::now() < until {
        std::hint::spin_loop();
    }
}

// ---------- recorded histories ----------

#[derive(Clone, Debug)]
enum PlanOp {
    Insert { col: Col, id: Option<DocumentId>, contents: Vec<u8> },
    /// With the newest header this thread knows, or an older one.
    Update { col: Col, id: DocumentId, old: bool, contents: Vec<u8> },
    Overwrite { col: Col, id: DocumentId, contents: Vec<u8> },
    Delete { col: Col, id: DocumentId, old: bool },
    Check { col: Col, id: DocumentId, rev: bool },
}
#[derive(Clone, Debug)]
enum Plan {
    Write(Vec<PlanOp>),
    Get(Col, DocumentId),
    GetMultiple(Col, Vec<DocumentId>),
    List(Col, Range<DocumentId>),
    Count(Col, Range<DocumentId>),
    Query(V),
}
#[derive(Clone, Debug)]
enum What {
    Write(Vec<Op>, Result<Vec<OperationResult>, Refused>),
    Get(Col, DocumentId, Option<(Header, Vec<u8>)>),
    GetMultiple(Col, Vec<DocumentId>, Vec<(Header, Vec<u8>)>),
    List(Col, Range<DocumentId>, Vec<(Header, Vec<u8>)>),
    Count(Col, Range<DocumentId>, u64),
    Query(V, Vec<Serialized>),
}
#[derive(Clone, Debug)]
struct Event {
    thread: usize,
    start: u64,
    end: u64,
    what: What,
}
impl Event {
    fn show(&self) -> String {
        let docs = |d: &[(Header, Vec<u8>)]| d.iter().map(|(h, _)| format!("{:?}@{}", h.id, h.revision.id)).collect::<Vec<_>>().join(" ");
        let what = match &self.what {
            What::Write(ops, r) => format!(
                "[{}] -> {}",
                ops.iter().map(Op::show).collect::<Vec<_>>().join("; "),
                match r {
                    Ok(r) => r
                        .iter()
                        .map(|r| match r {
                            OperationResult::Success => "ok".to_string(),
                            OperationResult::DocumentUpdated { header, .. } => format!("{:?}@{}", header.id, header.revision.id),
                            OperationResult::DocumentDeleted { id, .. } => format!("deleted {id:?}"),
                        })
                        .collect::<Vec<_>>()
                        .join("; "),
                    Err(e) => format!("{e:?}"),
                }
            ),
            What::Get(c, id, d) => format!("get {c:?} {id:?} -> {}", d.as_ref().map_or("none".to_string(), |(h, c2)| format!("@{} {}", h.revision.id, show(*c, c2)))),
            What::GetMultiple(c, ids, d) => format!("get {c:?} {ids:?} -> {}", docs(d)),
            What::List(c, r, d) => format!("list {c:?} {r:?} -> {}", docs(d)),
            What::Count(c, r, n) => format!("count {c:?} {r:?} -> {n}"),
            What::Query(v, m) => format!("query {v:?} -> {} mappings", m.len()),
        };
        format!("  {}..{} thread {}: {what}", self.start, self.end, self.thread)
    }
}
fn plain(d: OwnedDocument) -> (Header, Vec<u8>) {
    (d.header, d.contents.into_vec())
}
fn same_docs<'a>(got: &[(Header, Vec<u8>)], want: impl Iterator<Item = (&'a DocumentId, &'a Doc)>) -> bool {
    let mut got = got.iter();
    for (id, d) in want {
        match got.next() {
            Some((h, c)) if h.id == *id && h.revision == d.rev && *c == d.contents => {}
            _ => return false,
        }
    }
    got.next().is_none()
}
/// Whether `what` can happen in state `m`: the state after it, and what it
/// adds to the transaction log.
fn allowed(what: &What, m: &Model) -> Option<(Option<Model>, LogEntry)> {
    let yes = |b: bool| b.then(|| (None, LogEntry::new()));
    match what {
        What::Get(c, id, got) => yes(match (m.col(*c).get(id), got) {
            (None, None) => true,
            (Some(d), Some((h, contents))) => h.id == *id && h.revision == d.rev && *contents == d.contents,
            _ => false,
        }),
        What::GetMultiple(c, ids, got) => yes(same_docs(got, m.col(*c).iter().filter(|(i, _)| ids.contains(i)))),
        What::List(c, r, got) => yes(same_docs(got, m.col(*c).iter().filter(|(i, _)| contains(r, *i)))),
        What::Count(c, r, n) => yes(m.col(*c).keys().filter(|i| contains(r, *i)).count() as u64 == *n),
        What::Query(..) => yes(true),
        What::Write(ops, r) => {
            let mut next = m.clone();
            let mut entry = LogEntry::new();
            for (i, op) in ops.iter().enumerate() {
                let result = r.as_ref().ok().map(|r| &r[i]);
                let assigned = match (op, result) {
                    (Op::Insert { id: None, .. }, Some(OperationResult::DocumentUpdated { header, .. })) => Some(&header.id),
                    _ => None,
                };
                match (next.apply(op, assigned), result) {
                    (Ok(want), Some(got)) => {
                        let ok = match (want, got) {
                            (Expect::Updated(w), OperationResult::DocumentUpdated { header, collection }) => {
                                entry.push((op.col(), w.id.clone(), false));
                                w == *header && *collection == op.col().name()
                            }
                            (Expect::Deleted(w), OperationResult::DocumentDeleted { id, collection }) => {
                                entry.push((op.col(), w.clone(), true));
                                w == *id && *collection == op.col().name()
                            }
                            (Expect::Success, OperationResult::Success) => true,
                            _ => false,
                        };
                        if !ok {
                            return None;
                        }
                    }
                    // earlier operations of a refused transaction
                    (Ok(_), None) => {}
                    (Err(_), Some(_)) => return None,
                    (Err(want), None) => return yes(r.as_ref().err() == Some(&want)),
                }
            }
            r.is_ok().then_some((Some(next), entry))
        }
    }
}
struct Search<'a> {
    events: &'a [Event],
    log: Option<&'a [LogEntry]>,
    seen: HashSet<(u64, u64)>,
    visited: u64,
    order: Vec<usize>,
    /// The most events that could be ordered, and the log position then.
    best: usize,
}
fn fingerprint(m: &Model) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for (c, docs) in &m.cols {
        for (id, d) in docs {
            (c, &id[..], d.rev.id, d.rev.sha256).hash(&mut h);
        }
    }
    h.finish()
}
const TOO_MANY: u64 = 400_000;
impl Search<'_> {
    fn go(&mut self, mut done: u64, m: &Model, mut at: usize) -> Option<Model> {
        let n = self.events.len();
        let mark = self.order.len();
        // What changes nothing happens as soon as it can.
        loop {
            let mut progress = false;
            for i in self.enabled(done) {
                if let Some((None, _)) = allowed(&self.events[i].what, m) {
                    done |= 1 << i;
                    self.order.push(i);
                    progress = true;
                }
            }
            if !progress {
                break;
            }
        }
        self.best = self.best.max(self.order.len());
        if self.order.len() == n {
            return Some(m.clone());
        }
        self.visited += 1;
        if self.visited < TOO_MANY && self.seen.insert((done, fingerprint(m))) {
            for i in self.enabled(done) {
                let Some((Some(next), entry)) = allowed(&self.events[i].what, m) else { continue };
                let mut to = at;
                if let Some(log) = self.log {
                    if !entry.is_empty() {
                        if log.get(at) != Some(&entry) {
                            continue;
                        }
                        to += 1;
                    }
                }
                self.order.push(i);
                if let Some(m) = self.go(done | 1 << i, &next, to) {
                    return Some(m);
                }
                self.order.pop();
            }
        }
        at = self.order.len();
        let _ = at;
        self.order.truncate(mark);
        None
    }
    /// Not ordered yet, and not preceded by anything not ordered yet.
    fn enabled(&self, done: u64) -> Vec<usize> {
        let first_end = self.events.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, e)| e.end).min().unwrap_or(u64::MAX);
        (0..self.events.len()).filter(|i| done & (1 << i) == 0 && self.events[*i].start < first_end).collect()
    }
}

fn gen_plan(s: &mut Source, cols: &[Col], reads: Col, pool: &BTreeMap<Col, Vec<DocumentId>>) -> Plan {
    let col = |s: &mut Source| *s.pick(cols);
    match s.weighted(&[12, 4, 1, 2, 1, 2]) {
        0 => {
            let n = 1 + s.weighted(&[8, 3, 1]);
            let mut closed = BTreeSet::new();
            let mut ops = vec![];
            for _ in 0..n {
                let col = col(s);
                if closed.contains(&col) {
                    continue;
                }
                let id = s.pick(&pool[&col]).clone();
                let contents = gen_contents(s, col);
                ops.push(match s.weighted(&[4, 10, 3, 4, 1]) {
                    0 if col == Col::Item && s.bool() => {
                        closed.insert(col);
                        PlanOp::Insert { col, id: None, contents }
                    }
                    0 => PlanOp::Insert { col, id: Some(id), contents },
                    1 => PlanOp::Update { col, id, old: s.chance(1, 8), contents },
                    2 => PlanOp::Overwrite { col, id, contents },
                    3 => PlanOp::Delete { col, id, old: s.chance(1, 8) },
                    _ => PlanOp::Check { col, id, rev: s.bool() },
                });
            }
            Plan::Write(ops)
        }
        1 => Plan::Get(reads, s.pick(&pool[&reads]).clone()),
        2 => {
            let mut ids = pool[&reads].clone();
            ids.sort();
            Plan::GetMultiple(reads, ids)
        }
        3 => Plan::List(reads, if s.bool() { Range::from(..) } else { gen_range(s, reads) }),
        4 => Plan::Count(reads, if s.bool() { Range::from(..) } else { gen_range(s, reads) }),
        _ => {
            let vs: Vec<V> = VIEWS.iter().copied().filter(|v| v.col() != Col::Secret && cols.contains(&v.col())).collect();
            if vs.is_empty() {
                Plan::List(reads, Range::from(..))
            } else {
                Plan::Query(*s.pick(&vs))
            }
        }
    }
}

type Known = BTreeMap<(Col, DocumentId), Vec<Header>>;
fn resolve(p: &PlanOp, known: &Known) -> Op {
    let header = |col: Col, id: &DocumentId, old: bool| known.get(&(col, id.clone())).and_then(|h| if old { h.first() } else { h.last() }).cloned();
    match p.clone() {
        PlanOp::Insert { col, id, contents } => Op::Insert { col, id, contents },
        PlanOp::Update { col, id, old, contents } => match header(col, &id, old) {
            Some(header) => Op::Update { col, header, contents },
            None => Op::Insert { col, id: Some(id), contents },
        },
        PlanOp::Overwrite { col, id, contents } => Op::Overwrite { col, id, contents },
        PlanOp::Delete { col, id, old } => match header(col, &id, old) {
            Some(header) => Op::Delete { col, header },
            None => Op::Check { col, id, rev: None },
        },
        PlanOp::Check { col, id, rev } => {
            let rev = if rev { header(col, &id, false).map(|h| h.revision) } else { None };
            Op::Check { col, id, rev }
        }
    }
}
fn perform(t: usize, d: &D, plan: &[(u64, Plan)], mut know: Known, clock: &AtomicU64) -> Res<Vec<Event>> {
    let mut events = vec![];
    for (pause, p) in plan {
        spin(*pause);
        let ops: Vec<Op> = if let Plan::Write(ops) = p { ops.iter().map(|o| resolve(o, &know)).collect() } else { vec![] };
        let mut note = |col: Col, h: &Header| {
            let k = know.entry((col, h.id.clone())).or_default();
            if !k.contains(h) {
                k.push(h.clone());
            }
        };
        let start = clock.fetch_add(1, Ordering::SeqCst);
        macro_rules! timed {
            ($e:expr) => {{
                let r = $e;
                (r, clock.fetch_add(1, Ordering::SeqCst))
            }};
        }
        let (what, end) = match p {
            Plan::Write(_) => {
                let (r, end) = timed!(d.apply(transaction(&ops)));
                let r = match r {
                    Ok(r) => {
                        ensure!(r.len() == ops.len(), "{} results for {} operations", r.len(), ops.len());
                        for (op, r) in ops.iter().zip(&r) {
                            if let OperationResult::DocumentUpdated { header, .. } = r {
                                note(op.col(), header);
                            }
                        }
                        Ok(r)
                    }
                    Err(e) => match refusal(&e) {
                        Some(r) => Err(r),
                        None => fail!("transaction [{}] failed with {e:?}", ops.iter().map(Op::show).collect::<Vec<_>>().join("; ")),
                    },
                };
                (What::Write(ops, r), end)
            }
            Plan::Get(c, id) => {
                let (r, end) = timed!(d.get(*c, id.clone()));
                let r = r.or_fail("get")?.map(plain);
                if let Some((h, _)) = &r {
                    note(*c, h);
                }
                (What::Get(*c, id.clone(), r), end)
            }
            Plan::GetMultiple(c, ids) => {
                let (r, end) = timed!(d.get_multiple(*c, ids));
                let mut r: Vec<_> = r.or_fail("get_multiple")?.into_iter().map(plain).collect();
                r.sort_by(|a, b| a.0.id.cmp(&b.0.id));
                (What::GetMultiple(*c, ids.clone(), r), end)
            }
            Plan::List(c, range) => {
                let (r, end) = timed!(d.list(*c, range.clone()));
                let r: Vec<_> = r.or_fail("list")?.into_iter().map(plain).collect();
                for (h, _) in &r {
                    note(*c, h);
                }
                (What::List(*c, range.clone(), r), end)
            }
            Plan::Count(c, range) => {
                let (r, end) = timed!(d.count(*c, range.clone()));
                (What::Count(*c, range.clone(), r.or_fail("count")?), end)
            }
            Plan::Query(v) => {
                let (r, end) = timed!(d.query(*v));
                (What::Query(*v, r.or_fail("query")?), end)
            }
        };
        events.push(Event { thread: t, start, end, what });
    }
    Ok(events)
}

type Rev = (u32, [u8; 32]);
/// The result of a view query during the run, document by document: a
/// document nobody was changing appears with exactly its mappings, another
/// one with those of one of its versions.
fn check_query(q: &Event, v: V, got: &[Serialized], init: &Model, order: &[usize], events: &[Event], ctx: &mut Ctx) -> Res {
    // the versions of each document in the serial order, with the event that wrote it
    let mut versions: BTreeMap<DocumentId, Vec<(Option<usize>, Option<Doc>)>> = BTreeMap::new();
    for (id, d) in init.col(v.col()) {
        versions.entry(id.clone()).or_default().push((None, Some(d.clone())));
    }
    let mut m = init.clone();
    for i in order {
        if let Some((Some(next), entry)) = allowed(&events[*i].what, &m) {
            for (c, id, _) in entry {
                if c == v.col() {
                    versions.entry(id.clone()).or_insert_with(|| vec![(None, None)]).push((Some(*i), next.col(c).get(&id).cloned()));
                }
            }
            m = next;
        }
    }
    let mut by_doc: BTreeMap<DocumentId, Vec<(Rev, Vec<u8>, Vec<u8>)>> = BTreeMap::new();
    for g in got {
        by_doc.entry(g.source.id.clone()).or_default().push(((g.source.revision.id, g.source.revision.sha256), g.key.to_vec(), g.value.to_vec()));
    }
    for id in by_doc.keys() {
        ensure!(versions.contains_key(id), "{v:?}: a mapping of {id:?}, which never existed");
    }
    for (id, versions) in versions {
        // From the last version certainly there when the query started to the
        // last one that might be there when it ended.
        let from = versions.iter().rposition(|(e, _)| e.map_or(true, |e| events[e].end < q.start)).unwrap_or(0);
        let to = versions.iter().rposition(|(e, _)| e.map_or(true, |e| events[e].start < q.end)).unwrap_or(0);
        let mut got = by_doc.remove(&id).unwrap_or_default();
        got.sort();
        let mut possible = vec![];
        for (_, d) in &versions[from..=to.max(from)] {
            let mut maps: Vec<_> = match d {
                None => vec![],
                Some(d) => v.map(&d.contents).into_iter().map(|(k, x)| ((d.rev.id, d.rev.sha256), k, x)).collect(),
            };
            maps.sort();
            possible.push(maps);
        }
        if possible.len() > 1 {
            ctx.count("view_queries_beside_a_write_of_the_document");
        }
        if !possible.contains(&got) {
            fail!("{v:?} queried at {}..{}: document {id:?} has the mappings {}, possible are {}", q.start, q.end, short(&got), short(&possible));
        }
    }
    ctx.count("view_queries_during_the_run");
    Ok(())
}

fn listed_log(db: &Database, after: Option<u64>) -> Res<(Vec<LogEntry>, Option<u64>)> {
    let mut out = vec![];
    let mut last = after;
    for e in db.list_executed_transactions(after.map(|a| a + 1), Some(1000)).or_fail("list_executed_transactions")? {
        last = Some(e.id);
        if let Changes::Documents(d) = &e.changes {
            let mut entry = LogEntry::new();
            for (c, d) in d.iter() {
                let Some(c) = Col::of(c) else { fail!("transaction {} names collection {c}", e.id) };
                entry.push((c, d.id.clone(), d.deleted));
            }
            if !entry.is_empty() {
                out.push(entry);
            }
        }
    }
    Ok((out, last))
}

fn histories(s: &mut Source, ctx: &mut Ctx) -> Res {
    let threads = 2 + s.weighted(&[4, 3, 1]);
    let mut stage = Stage::new(s, threads, ctx)?;
    // Trees become readable one after another, so reads are of one collection.
    let cols: Vec<Col> = match s.weighted(&[5, 2, 2, 3]) {
        0 => vec![Col::Item],
        1 => vec![Col::Raw],
        2 => vec![Col::Named],
        _ => vec![Col::Item, Col::Named],
    };
    let mut model = Model::default();
    let rounds = 1 + s.draw(2);
    let mut seen_log = None;
    for round in 0..rounds {
        let reads = *s.pick(&cols);
        let pool: BTreeMap<Col, Vec<DocumentId>> = cols
            .iter()
            .map(|c| {
                let mut ids: Vec<DocumentId> = vec![];
                for _ in 0..2 + s.draw(2) {
                    let id = gen_id(s, *c);
                    // (the last id leaves none to assign, ids are kept short for the log)
                    if !ids.contains(&id) && (*c != Col::Item || id < DocumentId::from_u64(u64::MAX - 1000)) && id.len() < 40 {
                        ids.push(id);
                    }
                }
                for (id, _) in model.col(*c).iter().take(3) {
                    if !ids.contains(id) {
                        ids.push(id.clone());
                    }
                }
                if ids.is_empty() {
                    ids.push(DocumentId::from_u64(1));
                }
                (*c, ids)
            })
            .collect();
        if round == 0 {
            // something to start with
            for (c, ids) in &pool {
                for id in ids {
                    if s.bool() {
                        let op = Op::Insert { col: *c, id: Some(id.clone()), contents: gen_contents(s, *c) };
                        let mut next = model.clone();
                        if next.apply(&op, None).is_ok() {
                            stage.db().apply_transaction(transaction(&[op])).or_fail("insert")?;
                            model = next;
                        }
                    }
                }
            }
            if s.bool() {
                // lazy views are in use already
                for v in VIEWS.iter().filter(|v| cols.contains(&v.col())) {
                    D::Blocking(stage.db().clone()).query(*v).or_fail("query")?;
                }
            }
            seen_log = listed_log(stage.db(), None)?.1;
        }
        let max = [14, 10, 6][threads - 2];
        let plans: Vec<Vec<(u64, Plan)>> = (0..threads)
            .map(|_| s.list(1, max, 5, |s| (if s.bool() { 0 } else { s.draw(60) }, gen_plan(s, &cols, reads, &pool))))
            .collect();
        for (t, p) in plans.iter().enumerate() {
            ctx.log(format!("round {round}, thread {t}: {}", short(&p)));
        }
        let mut known = Known::new();
        for c in &cols {
            for (id, d) in model.col(*c) {
                known.insert((*c, id.clone()), vec![Header { id: id.clone(), revision: d.rev }]);
            }
        }
        if s.chance(1, 3) && stage.reopen()? {
            // Views are checked again while the threads work.
            ctx.log("reopened");
            ctx.count("rounds_after_reopening");
        }
        let clock = AtomicU64::new(1);
        let mut events: Vec<Event> = stage.run(|t, d| perform(t, d, &plans[t], known.clone(), &clock))?.into_iter().flatten().collect();
        events.sort_by_key(|e| e.start);
        let overlapping = events.iter().enumerate().filter(|(i, a)| events[i + 1..].iter().any(|b| b.start < a.end && (matches!(a.what, What::Write(..)) || matches!(b.what, What::Write(..))))).count();
        if overlapping > 0 {
            ctx.nontrivial();
        }
        ctx.add("operations_beside_others", overlapping as u64);
        ctx.add("operations", events.len() as u64);
        ctx.add("refused", events.iter().filter(|e| matches!(e.what, What::Write(_, Err(_)))).count() as u64);
        // What is there in the end.
        for c in &cols {
            let start = clock.fetch_add(1, Ordering::SeqCst);
            let docs = stage.db().list_from_collection(Range::from(..), Sort::Ascending, None, &c.name()).or_fail("list")?;
            let end = clock.fetch_add(1, Ordering::SeqCst);
            events.push(Event { thread: 99, start, end, what: What::List(*c, Range::from(..), docs.into_iter().map(plain).collect()) });
        }
        let (log, last) = listed_log(stage.db(), seen_log)?;
        seen_log = last;
        let single = cols.len() == 1;
        let mut search = Search { events: &events, log: single.then_some(&log[..]), seen: HashSet::new(), visited: 0, order: vec![], best: 0 };
        let found = search.go(0, &model, 0);
        let Some(next) = found else {
            if search.visited >= TOO_MANY {
                ctx.count("undecided");
                return Ok(());
            }
            let best = search.best;
            let mut without = Search { events: &events, log: None, seen: HashSet::new(), visited: 0, order: vec![], best: 0 };
            let plain = without.go(0, &model, 0).is_some();
            fail!(
                "no serial order {} explains the results of {threads} threads (at most {best} of {} operations); log: {}; before: {}; history:\n{}",
                if single && plain { "as in the transaction log" } else { "" },
                events.len(),
                short(&log),
                model.cols.iter().flat_map(|(c, d)| d.iter().map(move |(i, d)| format!("{c:?} {i:?}@{} {}", d.rev.id, show(*c, &d.contents)))).collect::<Vec<_>>().join(", "),
                events.iter().map(Event::show).collect::<Vec<_>>().join("\n")
            );
        };
        ctx.add("search_states", search.visited);
        let order = search.order.clone();
        let mut in_order: Vec<LogEntry> = vec![];
        let mut m = model.clone();
        for i in &order {
            if let Some((Some(n), entry)) = allowed(&events[*i].what, &m) {
                if !entry.is_empty() {
                    in_order.push(entry);
                }
                m = n;
            }
        }
        let (mut a, mut b) = (log.clone(), in_order);
        a.sort();
        b.sort();
        ensure!(a == b, "the transaction log has {}, applied were {}", short(&a), short(&b));
        for e in &events {
            if let What::Query(v, got) = &e.what {
                if let Err(f) = check_query(e, *v, got, &model, &order, &events, ctx) {
                    fail!("{}; history:\n{}", f.msg, events.iter().map(Event::show).collect::<Vec<_>>().join("\n"));
                }
            }
        }
        model = next;
        for v in VIEWS.iter().filter(|v| cols.contains(&v.col())) {
            let got = D::Blocking(stage.db().clone()).query(*v).or_fail("query")?;
            check_mappings(&format!("{v:?} afterwards"), &got, &model.selected(*v, &None), Sort::Ascending, None)?;
        }
    }
    if s.chance(1, 4) && stage.reopen()? {
        for c in &cols {
            let docs = stage.db().list_from_collection(Range::from(..), Sort::Ascending, None, &c.name()).or_fail("list")?;
            check_docs(&format!("{c:?} after reopening"), &docs, model.col(*c).iter())?;
        }
        for v in VIEWS.iter().filter(|v| cols.contains(&v.col())) {
            let got = D::Blocking(stage.db().clone()).query(*v).or_fail("query")?;
            check_mappings(&format!("{v:?} after reopening"), &got, &model.selected(*v, &None), Sort::Ascending, None)?;
        }
        ctx.count("reopened");
    }
    Ok(())
}

// ---------- key-value store ----------

struct KEvent {
    thread: usize,
    start: u64,
    end: u64,
    op: KeyOperation,
    result: KResult,
}
fn ksame(a: &KResult, b: &KResult) -> bool {
    match (a, b) {
        (KResult::Value(Some(a)), KResult::Value(Some(b))) => same_value(a, b),
        _ => a == b,
    }
}
fn kgo(events: &[&KEvent], done: u64, m: &KModel, seen: &mut HashSet<(u64, String)>) -> bool {
    if done.count_ones() as usize == events.len() {
        return true;
    }
    if !seen.insert((done, format!("{:?}", m.keys.values().next().map(|e: &KEntry| &e.value)))) {
        return false;
    }
    let first_end = events.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, e)| e.end).min().unwrap_or(u64::MAX);
    for (i, e) in events.iter().enumerate() {
        if done & (1 << i) == 0 && e.start < first_end {
            let mut next = m.clone();
            if ksame(&next.apply(&e.op), &e.result) && kgo(events, done | 1 << i, &next, seen) {
                return true;
            }
        }
    }
    false
}
fn keys(s: &mut Source, ctx: &mut Ctx) -> Res {
    let threads = 2 + s.weighted(&[4, 3, 1]);
    let mut stage = Stage::new(s, threads, ctx)?;
    let names: Vec<KvKey> = [(None, "a"), (None, "b"), (Some("n"), "a")][..1 + s.below(3)].iter().map(|(n, k)| (n.map(String::from), (*k).to_string())).collect();
    let hint = KModel::default();
    let plans: Vec<Vec<(u64, KeyOperation)>> = (0..threads)
        .map(|_| {
            s.list(1, 18, 10, |s| {
                let mut op = gen_kop(s, &hint, false);
                let (ns, k) = s.pick(&names).clone();
                op.namespace = ns;
                op.key = k;
                if let Command::Set(SetCommand { expiration, value, .. }) = &mut op.command {
                    *expiration = None;
                    if s.bool() {
                        *value = Value::Numeric(Numeric::UnsignedInteger(s.draw(3)));
                    }
                }
                if let Command::Increment { amount, .. } | Command::Decrement { amount, .. } = &mut op.command {
                    if s.bool() {
                        *amount = Numeric::UnsignedInteger(1 + s.draw(2));
                    }
                }
                (if s.bool() { 0 } else { s.draw(30) }, op)
            })
        })
        .collect();
    for (t, p) in plans.iter().enumerate() {
        ctx.log(format!("thread {t}: {}", short(&p)));
    }
    let clock = AtomicU64::new(1);
    let mut events: Vec<KEvent> = stage
        .run(|t, d| {
            let mut out = vec![];
            for (pause, op) in &plans[t] {
                spin(*pause);
                let start = clock.fetch_add(1, Ordering::SeqCst);
                let r = d.kv(op.clone());
                let end = clock.fetch_add(1, Ordering::SeqCst);
                out.push(KEvent { thread: t, start, end, op: op.clone(), result: classify(r)? });
            }
            Ok(out)
        })?
        .into_iter()
        .flatten()
        .collect();
    events.sort_by_key(|e| e.start);
    if events.iter().enumerate().any(|(i, a)| events[i + 1..].iter().any(|b| b.start < a.end && a.op.key == b.op.key && a.op.namespace == b.op.namespace)) {
        ctx.nontrivial();
    }
    ctx.add("key_value_operations", events.len() as u64);
    let reopened = s.chance(1, 3) && stage.reopen()?;
    for (ns, k) in names {
        let mut of_key: Vec<&KEvent> = events.iter().filter(|e| e.op.key == k && e.op.namespace == ns).collect();
        let op = KeyOperation { namespace: ns.clone(), key: k.clone(), command: Command::Get { delete: false } };
        let result = classify(stage.db().execute_key_operation(op.clone()))?;
        let last = KEvent { thread: 99, start: u64::MAX - 1, end: u64::MAX, op, result };
        of_key.push(&last);
        if of_key.len() > 60 {
            continue;
        }
        if !kgo(&of_key, 0, &KModel::default(), &mut HashSet::new()) {
            fail!(
                "no serial order explains the operations on key {ns:?} {k:?}{}:\n{}",
                if reopened { " (read after reopening)" } else { "" },
                of_key.iter().map(|e| format!("  {}..{} thread {}: {:?} -> {:?}", e.start, e.end, e.thread, e.op.command, e.result)).collect::<Vec<_>>().join("\n")
            );
        }
        ctx.count("keys_explained");
    }
    Ok(())
}

// ---------- contended workloads ----------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Work {
    /// Increments of one key.
    Counter,
    /// Read, modify, write again until it is accepted.
    Retry,
    /// The same, by `CollectionDocument::modify`.
    Modify,
    /// Updates with the same header.
    Winner,
    /// Inserts without ids.
    Push,
    /// Inserts of the same unique key.
    Unique,
    /// Inserts with the same id.
    SameId,
    /// Transfers between documents, whose sum stays the same.
    Bank,
    /// Setting a key only if it is vacant.
    Lock,
    /// Conflicting inserts across several collections.
    Across,
}
const WORKS: [Work; 10] = [Work::Counter, Work::Retry, Work::Modify, Work::Winner, Work::Push, Work::Unique, Work::SameId, Work::Bank, Work::Lock, Work::Across];

#[derive(Default, Debug)]
struct Did {
    counter: Vec<i64>,
    added: u64,
    tries: u64,
    won: Vec<(u64, Header)>,
    pushed: Vec<u64>,
    across: Vec<u64>,
    deltas: BTreeMap<u64, i64>,
}
fn item(n: u32, text: String) -> Vec<u8> {
    item_bytes(&Item { n, text, ..Item::default() })
}
fn item_of(d: &OwnedDocument) -> Res<Item> {
    <Item as SerializedCollection>::deserialize(&d.contents).or_fail("deserialize")
}
fn below(r: &mut Rng, n: u64) -> u64 {
    r.next() % n
}
fn id(n: u64) -> DocumentId {
    DocumentId::from_u64(n)
}
fn updated(r: &[OperationResult]) -> Res<Header> {
    match r.first() {
        Some(OperationResult::DocumentUpdated { header, .. }) => Ok(header.clone()),
        other => fail!("result {other:?} of a write"),
    }
}

const ACCOUNTS: u64 = 4;
const RETRY: u64 = 50;
const WINNER: u64 = 100;
const SAME: u64 = 1_000;
const PUSHED: u64 = 1_000_000;

fn work(w: Work, t: usize, threads: usize, n: u64, round: u64, d: &D, rnd: &mut Rng, did: &mut Did, start: &[Header]) -> Res {
    match w {
        Work::Counter => {
            for i in 0..n {
                let op = KeyOperation { namespace: None, key: "counter".into(), command: Command::Increment { amount: Numeric::Integer(1), saturating: i % 2 == 0 } };
                match d.kv(op).or_fail("increment")? {
                    Output::Value(Some(Value::Numeric(Numeric::Integer(v)))) => did.counter.push(v),
                    other => fail!("increment returned {other:?}"),
                }
            }
        }
        Work::Retry => {
            for _ in 0..n {
                for attempt in 0.. {
                    ensure!(attempt < 20_000, "an update was refused {attempt} times");
                    did.tries += 1;
                    let doc = d.get(Col::Item, id(RETRY)).or_fail("get")?.ok_or_else(|| Failure::new("the counted document is gone"))?;
                    let mut i = item_of(&doc)?;
                    i.n += 1;
                    let op = Op::Update { col: Col::Item, header: doc.header.clone(), contents: item_bytes(&i) };
                    match d.apply(transaction(&[op])) {
                        Ok(_) => break,
                        Err(e) => match refusal(&e) {
                            Some(Refused::Conflict(c)) if c == id(RETRY) => {}
                            _ => fail!("update failed with {e:?}"),
                        },
                    }
                }
                did.added += 1;
            }
        }
        Work::Modify => {
            for _ in 0..n {
                let add = |i: &mut CollectionDocument<Item>| i.contents.n += 1;
                macro_rules! modify {
                    ($x:expr) => {{
                        let mut doc = Item::get(&RETRY, $x).or_fail("get")?.ok_or_else(|| Failure::new("the counted document is gone"))?;
                        doc.modify($x, add).or_fail("modify")?;
                        doc
                    }};
                }
                macro_rules! modify_async {
                    ($x:expr) => {
                        rt().block_on(async {
                            let mut doc = Item::get_async(&RETRY, $x).await.or_fail("get")?.ok_or_else(|| Failure::new("the counted document is gone"))?;
                            doc.modify_async($x, add).await.or_fail("modify")?;
                            Ok::<_, Failure>(doc)
                        })?
                    };
                }
                let doc = match d {
                    D::Blocking(x) => modify!(x),
                    D::BlockingClient(x) => modify!(x),
                    D::Async(x) => modify_async!(x),
                    D::Client(x) => modify_async!(x),
                };
                did.pushed.push(u64::from(doc.contents.n));
                did.added += 1;
            }
        }
        Work::Winner => {
            for i in 0..n {
                // (every thread from the same header)
                let header = start[(i % start.len() as u64) as usize].clone();
                if did.won.iter().any(|(j, _)| j % start.len() as u64 == i % start.len() as u64) {
                    continue;
                }
                let op = if below(rnd, 4) == 0 {
                    Op::Delete { col: Col::Item, header: header.clone() }
                } else {
                    Op::Update { col: Col::Item, header: header.clone(), contents: item(1 + t as u32 + 10 * i as u32, format!("t{t}")) }
                };
                match d.apply(transaction(&[op])) {
                    Ok(_) => did.won.push((i % start.len() as u64, header)),
                    Err(e) => match refusal(&e) {
                        Some(Refused::Conflict(c) | Refused::NotFound(c)) if c == header.id => {}
                        _ => fail!("{e:?}"),
                    },
                }
            }
        }
        Work::Push => {
            for i in 0..n {
                let count = 1 + below(rnd, 3) as usize;
                let ops: Vec<Op> = (0..count).map(|_| Op::Insert { col: Col::Item, id: None, contents: item(i as u32, format!("t{t}")) }).collect();
                for r in d.apply(transaction(&ops)).or_fail("push")? {
                    let h = updated(&[r])?;
                    did.pushed.push(h.id.deserialize().or_fail("id")?);
                }
            }
        }
        Work::Unique => {
            for i in 0..n {
                let op = Op::Insert { col: Col::Item, id: None, contents: item(i as u32, format!("u{round}-{i}")) };
                match d.apply(transaction(&[op])) {
                    Ok(r) => did.won.push((i, updated(&r)?)),
                    Err(e) if refusal(&e) == Some(Refused::Unique) => {}
                    Err(e) => fail!("{e:?}"),
                }
            }
        }
        Work::SameId => {
            for i in 0..n {
                let op = Op::Insert { col: Col::Item, id: Some(id(SAME + i)), contents: item(i as u32, format!("t{t}")) };
                match d.apply(transaction(&[op])) {
                    Ok(r) => did.won.push((i, updated(&r)?)),
                    Err(e) if refusal(&e) == Some(Refused::Conflict(id(SAME + i))) => {}
                    Err(e) => fail!("{e:?}"),
                }
            }
        }
        Work::Bank => {
            for _ in 0..n {
                let docs = d.list(Col::Item, Range { start: Bound::Included(id(0)), end: Bound::Excluded(id(ACCOUNTS)) }).or_fail("list")?;
                let items: Vec<Item> = docs.iter().map(item_of).collect::<Res<_>>()?;
                let sum: u32 = items.iter().map(|i| i.n).sum();
                ensure!(items.len() as u64 == ACCOUNTS && sum == 1000 * ACCOUNTS as u32, "a listing of the accounts adds up to {sum} in {} accounts", items.len());
                let from = below(rnd, ACCOUNTS) as usize;
                let to = (from + 1 + below(rnd, ACCOUNTS - 1) as usize) % ACCOUNTS as usize;
                let amount = 1 + below(rnd, 50) as u32;
                if items[from].n < amount {
                    continue;
                }
                let (mut a, mut b) = (items[from].clone(), items[to].clone());
                a.n -= amount;
                b.n += amount;
                let ops = [
                    Op::Update { col: Col::Item, header: docs[from].header.clone(), contents: item_bytes(&a) },
                    Op::Update { col: Col::Item, header: docs[to].header.clone(), contents: item_bytes(&b) },
                ];
                match d.apply(transaction(&ops)) {
                    Ok(_) => {
                        *did.deltas.entry(from as u64).or_default() -= i64::from(amount);
                        *did.deltas.entry(to as u64).or_default() += i64::from(amount);
                        did.added += 1;
                    }
                    Err(e) => match refusal(&e) {
                        Some(Refused::Conflict(_)) => {}
                        _ => fail!("{e:?}"),
                    },
                }
            }
        }
        Work::Lock => {
            for i in 0..n {
                let op = KeyOperation {
                    namespace: Some("locks".into()),
                    key: format!("{i}"),
                    command: Command::Set(SetCommand {
                        value: Value::Numeric(Numeric::UnsignedInteger(t as u64)),
                        expiration: None,
                        keep_existing_expiration: false,
                        check: Some(bonsaidb_core::keyvalue::KeyCheck::OnlyIfVacant),
                        return_previous_value: false,
                    }),
                };
                match d.kv(op).or_fail("set")? {
                    Output::Status(KeyStatus::Inserted) => did.won.push((i, Header { id: id(i), revision: bonsaidb_core::document::Revision::new(b"") })),
                    Output::Status(KeyStatus::NotChanged) => {}
                    other => fail!("{other:?}"),
                }
            }
        }
        Work::Across => {
            for i in 0..n {
                let name = |i: u64| DocumentId::try_from(format!("n{i}").as_bytes()).expect("HARNESS: id");
                let named = |i: u64| <Named as SerializedCollection>::serialize(&Named { name: format!("n{i}"), data: t as u32 }).expect("HARNESS: serialize");
                let mut ops = vec![
                    Op::Insert { col: Col::Named, id: Some(name(i)), contents: named(i) },
                    Op::Insert { col: Col::Item, id: Some(id(SAME + i)), contents: item(t as u32, format!("t{t}")) },
                    Op::Insert { col: Col::Raw, id: Some(name(i)), contents: vec![t as u8] },
                ];
                // in any order
                for k in (1..ops.len()).rev() {
                    ops.swap(k, below(rnd, k as u64 + 1) as usize);
                }
                if below(rnd, 3) == 0 {
                    ops.truncate(2);
                }
                match d.apply(transaction(&ops)) {
                    Ok(r) => did.across.extend(std::iter::repeat(i).take(r.len())),
                    Err(e) => match refusal(&e) {
                        Some(Refused::Conflict(_)) => {}
                        _ => fail!("{e:?}"),
                    },
                }
                let _ = threads;
            }
        }
    }
    Ok(())
}

fn contended(s: &mut Source, ctx: &mut Ctx) -> Res {
    let threads = 2 + s.draw(4) as usize;
    let stage = Stage::new(s, threads, ctx)?;
    let works: Vec<Work> = {
        let mut w: Vec<Work> = s.list(1, 3, 2, |s| *s.pick(&WORKS));
        w.dedup();
        w
    };
    let n = 1 + s.draw(25);
    let compacting = s.chance(1, 3);
    let viewing = s.bool();
    let seeds: Vec<u64> = (0..threads).map(|_| s.draw(1 << 30)).collect();
    ctx.log(format!("{works:?} {n} times; compacting {compacting}, viewing {viewing}"));
    let db = stage.db();
    let put = |i: u64, c: Vec<u8>| db.apply_transaction(transaction(&[Op::Overwrite { col: Col::Item, id: id(i), contents: c }]));
    for a in 0..ACCOUNTS {
        put(a, item(1000, String::new())).or_fail("overwrite")?;
    }
    let stop = AtomicBool::new(false);
    let mut expected_n = 0_u64;
    put(RETRY, item(0, String::new())).or_fail("overwrite")?;
    let mut pushed_all: BTreeSet<u64> = BTreeSet::new();
    for (round, w) in works.iter().copied().enumerate() {
        let mut start = vec![];
        for k in 0..5 {
            let r = put(WINNER + k, item(0, format!("start {round}"))).or_fail("overwrite")?;
            start.push(updated(&r)?);
        }
        // earlier rounds' documents
        for c in [Col::Item, Col::Named, Col::Raw] {
            for d in db.list_from_collection(Range::from(..), Sort::Ascending, None, &c.name()).or_fail("list")? {
                let keep = c == Col::Item && d.header.id < id(SAME);
                if !keep {
                    db.apply_transaction(transaction(&[Op::Delete { col: c, header: d.header.clone() }])).or_fail("delete")?;
                    if c == Col::Item {
                        pushed_all.remove(&d.header.id.deserialize::<u64>().or_fail("id")?);
                    }
                }
            }
        }
        put(PUSHED, item(0, String::new())).or_fail("overwrite")?;
        for k in 0..n {
            db.execute_key_operation(KeyOperation { namespace: Some("locks".into()), key: format!("{k}"), command: Command::Delete }).or_fail("delete key")?;
        }
        db.execute_key_operation(KeyOperation { namespace: None, key: "counter".into(), command: Command::Set(SetCommand { value: Value::Numeric(Numeric::Integer(0)), expiration: None, keep_existing_expiration: false, check: None, return_previous_value: false }) }).or_fail("set")?;
        if w == Work::Retry || w == Work::Modify {
            put(RETRY, item(0, format!("t{round}"))).or_fail("overwrite")?;
            expected_n = 0;
        }
        stop.store(false, Ordering::SeqCst);
        let result: Res<Vec<Did>> = std::thread::scope(|scope| {
            let mut beside = vec![];
            if compacting {
                let (db, stop) = (db.clone(), &stop);
                beside.push(scope.spawn(move || -> Res {
                    let mut i = 0;
                    while !stop.load(Ordering::SeqCst) {
                        match i % 3 {
                            0 => db.compact_collection_by_name(Col::Item.name()).or_fail("compact_collection")?,
                            1 => db.compact_key_value_store().or_fail("compact_key_value_store")?,
                            _ => db.compact().or_fail("compact")?,
                        }
                        i += 1;
                    }
                    Ok(())
                }));
            }
            if viewing {
                let (db, stop) = (db.clone(), &stop);
                beside.push(scope.spawn(move || -> Res {
                    let d = D::Blocking(db);
                    while !stop.load(Ordering::SeqCst) {
                        for v in [V::Tag, V::Parent, V::N, V::Text] {
                            d.query(v).or_fail("query")?;
                        }
                    }
                    Ok(())
                }));
            }
            let r = stage.run(|t, d| {
                let mut did = Did::default();
                let mut rnd = Rng::new(seeds[t].wrapping_add(round as u64));
                work(w, t, threads, n, round as u64, d, &mut rnd, &mut did, &start)?;
                Ok(did)
            });
            stop.store(true, Ordering::SeqCst);
            for b in beside {
                b.join().map_err(|_| Failure::new("a thread beside the workers panicked"))??;
            }
            r
        });
        let did = result?;
        ctx.count(match w {
            Work::Counter => "counter",
            Work::Retry => "retry",
            Work::Modify => "modify",
            Work::Winner => "winner",
            Work::Push => "push",
            Work::Unique => "unique",
            Work::SameId => "same_id",
            Work::Bank => "bank",
            Work::Lock => "lock",
            Work::Across => "across",
        });
        let busy = did.iter().filter(|d| d.added > 0 || !d.counter.is_empty() || !d.won.is_empty() || !d.pushed.is_empty() || !d.across.is_empty()).count();
        if busy > 1 {
            ctx.nontrivial();
        }
        let total = threads as u64 * n;
        match w {
            Work::Counter => {
                let mut all: Vec<i64> = did.iter().flat_map(|d| d.counter.clone()).collect();
                for d in &did {
                    ensure!(d.counter.windows(2).all(|w| w[0] < w[1]), "one thread's increments returned {}", short(&d.counter));
                }
                all.sort_unstable();
                let want: Vec<i64> = (1..=total as i64).collect();
                ensure!(all == want, "{total} increments returned {}", short(&all));
            }
            Work::Retry | Work::Modify => {
                expected_n += did.iter().map(|d| d.added).sum::<u64>();
                ensure_eq!(expected_n, total, "HARNESS: added");
                let doc = db.get_from_collection(id(RETRY), &Col::Item.name()).or_fail("get")?.ok_or_else(|| Failure::new("the counted document is gone"))?;
                let i = item_of(&doc)?;
                ensure_eq!(u64::from(i.n), expected_n, "{threads} threads adding 1 {n} times each ({w:?})");
                let tries: u64 = did.iter().map(|d| d.tries).sum();
                ctx.add("conflicts_retried", tries.saturating_sub(total));
                if w == Work::Modify {
                    // every one saw its own result
                    let mut seen: Vec<u64> = did.iter().flat_map(|d| d.pushed.clone()).collect();
                    seen.sort_unstable();
                    ensure!(seen == (1..=total).collect::<Vec<_>>(), "modify left the documents with {}", short(&seen));
                }
            }
            Work::Winner => {
                let mut by: BTreeMap<u64, usize> = BTreeMap::new();
                for d in &did {
                    for (k, _) in &d.won {
                        *by.entry(*k).or_default() += 1;
                    }
                }
                for k in 0..(start.len() as u64).min(n) {
                    ensure!(by.get(&k) == Some(&1), "{} of {threads} writers with the same header succeeded", by.get(&k).copied().unwrap_or(0));
                }
            }
            Work::Push => {
                let all: Vec<u64> = did.iter().flat_map(|d| d.pushed.clone()).collect();
                let set: BTreeSet<u64> = all.iter().copied().collect();
                ensure!(set.len() == all.len(), "{} documents were given {} ids", all.len(), set.len());
                for d in &did {
                    ensure!(d.pushed.windows(2).all(|w| w[0] < w[1]), "one thread's documents were given the ids {}", short(&d.pushed));
                }
                let there: BTreeSet<u64> = db
                    .list_from_collection(Range { start: Bound::Excluded(id(PUSHED)), end: Bound::Unbounded }, Sort::Ascending, None, &Col::Item.name())
                    .or_fail("list")?
                    .iter()
                    .map(|d| d.header.id.deserialize::<u64>().or_fail("id"))
                    .collect::<Res<_>>()?;
                ensure!(there == set, "pushed were {}, there are {}", short(&set), short(&there));
            }
            Work::Unique | Work::SameId | Work::Lock => {
                let mut by: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
                for (t, d) in did.iter().enumerate() {
                    for (k, _) in &d.won {
                        by.entry(*k).or_default().push(t);
                    }
                }
                for k in 0..n {
                    let who = by.get(&k).cloned().unwrap_or_default();
                    ensure!(who.len() == 1, "{w:?} {k}: the threads {who:?} succeeded");
                    if w == Work::Lock {
                        let op = KeyOperation { namespace: Some("locks".into()), key: format!("{k}"), command: Command::Get { delete: false } };
                        match db.execute_key_operation(op).or_fail("get")? {
                            Output::Value(Some(Value::Numeric(Numeric::UnsignedInteger(v)))) if v == who[0] as u64 => {}
                            other => fail!("lock {k} was taken by {who:?}, it reads {other:?}"),
                        }
                    }
                }
                if w == Work::Unique {
                    let texts = D::Blocking(db.clone()).query(V::Text).or_fail("query")?;
                    let mine = texts.iter().filter(|m| m.key.starts_with(format!("u{round}-").as_bytes())).count();
                    ensure_eq!(mine as u64, n, "entries of the unique view");
                }
            }
            Work::Bank => {
                let mut want = vec![1000_i64; ACCOUNTS as usize];
                for d in &did {
                    for (a, x) in &d.deltas {
                        want[*a as usize] += x;
                    }
                }
                for a in 0..ACCOUNTS {
                    let doc = db.get_from_collection(id(a), &Col::Item.name()).or_fail("get")?.ok_or_else(|| Failure::new("an account is gone"))?;
                    ensure_eq!(i64::from(item_of(&doc)?.n), want[a as usize], "account {a} after the accepted transfers");
                }
                ctx.add("transfers", did.iter().map(|d| d.added).sum());
                for a in 0..ACCOUNTS {
                    put(a, item(1000, String::new())).or_fail("overwrite")?;
                }
            }
            Work::Across => {
                let mut by: BTreeMap<u64, usize> = BTreeMap::new();
                for d in &did {
                    for k in &d.across {
                        *by.entry(*k).or_default() += 1;
                    }
                }
                let stored = db.count_from_collection(Range::from(..), &Col::Named.name()).or_fail("count")?
                    + db.count_from_collection(Range::from(..), &Col::Raw.name()).or_fail("count")?
                    + db.count_from_collection(Range { start: Bound::Included(id(SAME)), end: Bound::Excluded(id(PUSHED)) }, &Col::Item.name()).or_fail("count")?;
                ensure_eq!(stored, by.values().sum::<usize>() as u64, "documents of the accepted transactions");
                ensure!(by.values().all(|v| *v == 2 || *v == 3), "one set of conflicting transactions stored {by:?} documents");
                ensure_eq!(by.len() as u64, n, "sets of conflicting transactions of which one succeeded");
            }
        }
        // the views agree
        let mut m = Model::default();
        for d in db.list_from_collection(Range::from(..), Sort::Ascending, None, &Col::Item.name()).or_fail("list")? {
            m.col_mut(Col::Item).insert(d.header.id.clone(), Doc { rev: d.header.revision, contents: d.contents.to_vec() });
        }
        for v in [V::Tag, V::Parent, V::N, V::Pair, V::Text] {
            let got = D::Blocking(db.clone()).query(v).or_fail("query")?;
            check_mappings(&format!("{v:?} after {w:?}"), &got, &m.selected(v, &None), Sort::Ascending, None)?;
        }
    }
    Ok(())
}

// ---------- several handles of the same names ----------

fn creating(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let path = scratch.path("db");
    let storage = open(&path)?;
    let threads = 2 + s.below(4);
    let rounds = 1 + s.draw(2);
    for round in 0..rounds {
        let name = format!("d{round}");
        let if_needed: Vec<bool> = (0..threads).map(|_| s.chance(1, 3)).collect();
        let pauses: Vec<u64> = (0..threads).map(|_| if s.bool() { 0 } else { s.draw(40) }).collect();
        let user = s.bool();
        ctx.log(format!("create {name} by {threads} threads, only if needed {if_needed:?}, pauses {pauses:?}"));
        let barrier = Barrier::new(threads);
        type Made = (bool, Header, Option<u64>);
        let results: Vec<Res<Made>> = std::thread::scope(|scope| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (storage, barrier, name, if_needed, pauses) = (storage.clone(), &barrier, &name, &if_needed, &pauses);
                    scope.spawn(move || -> Res<Made> {
                        barrier.wait();
                        spin(pauses[t]);
                        let created = match storage.create_database::<Main>(name, if_needed[t]) {
                            Ok(_) => true,
                            Err(Error::DatabaseNameAlreadyTaken(n)) if n == *name && !if_needed[t] => false,
                            Err(e) => fail!("create_database: {e:?}"),
                        };
                        let db = storage.database::<Main>(name).or_fail("database")?;
                        let r = db.apply_transaction(transaction(&[Op::Insert { col: Col::Item, id: None, contents: item(t as u32, format!("t{t}")) }])).or_fail("insert")?;
                        let h = updated(&r)?;
                        db.execute_key_operation(KeyOperation { namespace: None, key: "n".into(), command: Command::Increment { amount: Numeric::UnsignedInteger(1), saturating: true } }).or_fail("increment")?;
                        let made = if user {
                            match storage.create_user(&format!("user{round}")) {
                                Ok(id) => Some(id),
                                Err(Error::UniqueKeyViolation { .. }) => None,
                                Err(e) => fail!("create_user: {e:?}"),
                            }
                        } else {
                            None
                        };
                        Ok((created && !if_needed[t], h, made))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Failure::new("a thread panicked")))).collect()
        });
        let results: Vec<Made> = results.into_iter().collect::<Res<_>>()?;
        ctx.nontrivial();
        let creators = results.iter().filter(|r| r.0).count();
        ensure!(creators <= 1 && (creators == 1 || if_needed.iter().any(|x| *x)), "{creators} threads created the database");
        if user {
            let users = results.iter().filter(|r| r.2.is_some()).count();
            ensure!(users == 1, "{users} threads created the same user");
        }
        let n = storage.list_databases().or_fail("list_databases")?.iter().filter(|d| d.name == name).count();
        ensure!(n == 1, "the database is listed {n} times");
        let check = |storage: &Storage, what: &str| -> Res {
            let db = storage.database::<Main>(&name).or_fail("database")?;
            let docs = db.list_from_collection(Range::from(..), Sort::Ascending, None, &Col::Item.name()).or_fail("list")?;
            let mut want: Vec<&Header> = results.iter().map(|r| &r.1).collect();
            want.sort_by(|a, b| a.id.cmp(&b.id));
            let got: Vec<&Header> = docs.iter().map(|d| &d.header).collect();
            ensure!(got == want, "{what}: documents {}, inserted through {threads} handles were {}", short(&got), short(&want));
            let v = db.execute_key_operation(KeyOperation { namespace: None, key: "n".into(), command: Command::Get { delete: false } }).or_fail("get")?;
            match v {
                Output::Value(Some(Value::Numeric(Numeric::UnsignedInteger(v)))) if v == threads as u64 => Ok(()),
                other => fail!("{what}: {threads} increments add up to {other:?}"),
            }
        };
        check(&storage, "another handle")?;
        if round + 1 == rounds && s.bool() {
            drop(storage);
            return check(&open(&path)?, "after reopening");
        }
    }
    Ok(())
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        level: "exploration",
        rule: "at least two operations of different threads overlapped, one of them a write (histories), or several threads had successes in the same workload",
        assumptions: &[
            "Schedules are those of free-running threads with random short pauses; there is no control over the scheduler.",
            "A transaction over several collections becomes readable one collection at a time (nebari publishes tree by tree), so the reads of one history are of one collection.",
            "A lazy view queried beside writers is compared document by document: it need not be the state of one moment.",
        ],
        sections: vec![
            section("histories", 2_500, 120_000, histories).threads(6),
            section("keys", 1_500, 60_000, keys).threads(6),
            section("contended", 150, 8_000, contended).threads(4),
            section("creating", 400, 20_000, creating).threads(4),
        ],
    }
}
