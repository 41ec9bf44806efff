//! Histories of document writes, view queries, listings, reopenings and
//! compactions against the model (C03–C09).
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{AccessPolicy, AsyncConnection, AsyncLowLevelConnection, Bound, Connection, LowLevelConnection, Range, SerializedQueryKey, Sort, StorageConnection};
use bonsaidb_core::document::{CollectionHeader, DocumentId, Header, OwnedDocument, Revision};
use bonsaidb_core::key::Key;
use bonsaidb_core::schema::{Collection, SerializedCollection};
use bonsaidb_core::transaction::{Changes, Operation, OperationResult, Transaction};
use bonsaidb_core::Error;
use bonsaidb_local::{AsyncDatabase, Database, Storage};

use bonsaidb_core::keyvalue::{Command, KeyOperation, KeyStatus, SetCommand};

use crate::engine::*;
use crate::fix::*;
use crate::kv::{classify, exec, gen_kop, same_value, KModel, KResult, KvKey};
use crate::{ensure, ensure_eq, fail};

/// One entry of the expected transaction log: changed documents in order.
pub type LogEntry = Vec<(Col, DocumentId, bool)>;

pub struct World {
    pub path: PathBuf,
    pub storage: Option<Storage>,
    pub db: Option<Database>,
    pub model: Model,
    /// Every header that was ever current, for stale writes.
    pub history: Vec<(Col, Header)>,
    pub log: Vec<LogEntry>,
    /// Log entries whose order of documents is not specified.
    pub unordered: BTreeSet<usize>,
    /// Ids the log entries were reported under (filled by `check_log`).
    pub log_ids: Vec<u64>,
    pub floor: u64,
    /// Model states since the view was last brought up to date.
    pub stale: BTreeMap<V, Vec<BTreeMap<Vec<u8>, Vec<(Header, Vec<u8>)>>>>,
    /// Views which a background task may be updating.
    pub background: BTreeSet<V>,
    /// Views queried before. The first query of a view lets a task map the
    /// documents, which it only waits for if it is to update the view.
    pub scanned: BTreeSet<V>,
    /// A transaction was logged whose entry spans several pages of the log;
    /// see `known` below.
    pub wide: bool,
    /// Nothing is on disk, so closing loses everything.
    pub memory: bool,
    /// Opening the database starts tasks which check and update the views.
    pub integrity: bool,
    /// Key-value entries without expirations.
    pub kv: KModel,
    /// Whether each change of a key deleted it.
    pub kv_events: BTreeMap<KvKey, Vec<bool>>,
    pub opener: Opener,
    _scratch: Option<Scratch>,
}
pub type Opener = std::sync::Arc<dyn Fn(&Path) -> Res<Storage> + Send + Sync>;

impl World {
    pub fn new() -> Res<Self> {
        Self::with(std::sync::Arc::new(open), false)
    }
    /// `secret` uses the schema with the encrypted collection.
    pub fn with(opener: Opener, secret: bool) -> Res<Self> {
        let scratch = Scratch::new();
        let path = scratch.path("db.bonsaidb");
        let storage = opener(&path)?;
        let db = if secret { storage.create_database::<Vaulted>("main", false) } else { storage.create_database::<Main>("main", false) }.or_fail("create_database")?;
        let mut w = Self::around(storage, db, secret);
        w.opener = opener;
        w._scratch = Some(scratch);
        Ok(w)
    }
    /// A new database of a storage managed by the caller.
    pub fn around(storage: Storage, db: Database, secret: bool) -> Self {
        let mut w = Self {
            path: bonsaidb_local::StorageNonBlocking::path(&storage).to_path_buf(),
            storage: Some(storage),
            db: Some(db),
            model: Model { secret, ..Model::default() },
            history: vec![],
            log: vec![],
            unordered: BTreeSet::new(),
            log_ids: vec![],
            floor: 0,
            stale: BTreeMap::new(),
            background: BTreeSet::new(),
            scanned: BTreeSet::new(),
            wide: false,
            memory: false,
            integrity: false,
            kv: KModel::default(),
            kv_events: BTreeMap::new(),
            opener: std::sync::Arc::new(open),
            _scratch: None,
        };
        for v in VIEWS {
            w.stale.insert(v, vec![BTreeMap::new()]);
        }
        w
    }
    pub fn db(&self) -> &Database {
        self.db.as_ref().expect("HARNESS: open")
    }
    pub fn close(&mut self) {
        self.db = None;
        self.storage = None;
    }
    /// Something was changed while the database was closed.
    pub fn note(&mut self, entry: LogEntry) {
        self.note_log(entry);
        self.note_states();
    }
    pub fn reopen(&mut self) -> Res {
        self.close();
        let storage = (self.opener)(&self.path)?;
        let db = if self.model.secret { storage.database::<Vaulted>("main") } else { storage.database::<Main>("main") };
        self.db = Some(db.or_fail("opening the database again")?);
        self.storage = Some(storage);
        self.opened();
        Ok(())
    }
    pub fn reopenable(&self) -> bool {
        !self.wide && !self.memory
    }
    fn opened(&mut self) {
        if self.integrity {
            for v in self.model.all_views().iter().copied().filter(|v| v.lazy()) {
                self.scanned.insert(v);
                self.background.insert(v);
            }
        }
    }
    fn note_log(&mut self, entry: LogEntry) {
        let size: usize = entry.iter().map(|e| e.1.len() + 24).sum();
        if size > 700 {
            self.wide = true;
        }
        self.log.push(entry);
    }
    fn note_states(&mut self) {
        for v in VIEWS {
            let now = self.model.view(v);
            let states = self.stale.get_mut(&v).expect("HARNESS: view");
            if states.last() != Some(&now) {
                states.push(now);
            }
        }
    }
    fn synced(&mut self, v: V) {
        let now = self.model.view(v);
        self.stale.insert(v, vec![now]);
        self.scanned.insert(v);
        self.background.remove(&v);
    }

    /// Applies a transaction and checks the outcome of each operation.
    pub fn tx(&mut self, ops: &[Op], via: Via, ctx: &mut Ctx) -> Res<bool> {
        let result = run_ops(self.db(), ops, via);
        let mut next = self.model.clone();
        let mut entry = LogEntry::new();
        match result {
            Ok(results) => {
                ensure!(results.len() == ops.len(), "{} results for {} operations", results.len(), ops.len());
                for (op, r) in ops.iter().zip(&results) {
                    let assigned = match (op, r) {
                        (Op::Insert { id: None, col, .. }, OperationResult::DocumentUpdated { header, .. }) => {
                            if let Some((last, _)) = next.col(*col).last_key_value() {
                                ensure!(header.id > *last, "insert without id was given {:?}, not after the last id {last:?}", header.id);
                            }
                            ensure!(<u64 as Key>::from_ord_bytes(bonsaidb_core::key::ByteSource::Borrowed(&header.id)).is_ok(), "assigned id {:?} is not a key of the collection", header.id);
                            ctx.count("ids_assigned");
                            Some(header.id.clone())
                        }
                        _ => None,
                    };
                    match next.apply(op, assigned.as_ref()) {
                        Ok(want) => {
                            let got = match r {
                                OperationResult::DocumentUpdated { collection, header } => {
                                    ensure_eq!(collection, &op.col().name(), "collection of the result of {}", op.show());
                                    Expect::Updated(header.clone())
                                }
                                OperationResult::DocumentDeleted { collection, id } => {
                                    ensure_eq!(collection, &op.col().name(), "collection of the result of {}", op.show());
                                    Expect::Deleted(id.clone())
                                }
                                OperationResult::Success => Expect::Success,
                            };
                            ensure!(got == want, "{}: result {}, expected {}", op.show(), short(&got), short(&want));
                            match got {
                                Expect::Updated(h) => {
                                    entry.push((op.col(), h.id.clone(), false));
                                    if !self.history.contains(&(op.col(), h.clone())) {
                                        self.history.push((op.col(), h));
                                    }
                                }
                                Expect::Deleted(id) => entry.push((op.col(), id, true)),
                                _ => {}
                            }
                        }
                        Err(r) => fail!("{} succeeded, expected {r:?}", op.show()),
                    }
                }
                self.model = next;
                self.note_log(entry);
                self.note_states();
                ctx.count("transactions_applied");
                if ops.len() > 1 {
                    ctx.count("multi_operation_transactions_applied");
                }
                Ok(true)
            }
            Err(e) => {
                ctx.count("transactions_refused");
                for (i, op) in ops.iter().enumerate() {
                    if let Op::Insert { id: None, col, .. } = op {
                        // No id follows the last one; ids of deleted documents
                        // count until the collection is compacted.
                        let last = DocumentId::from_u64(u64::MAX);
                        let used = self.model.col(*col).contains_key(&last) || self.history.iter().any(|(c, h)| c == col && h.id == last) || ops[..i].iter().any(|o| o.col() == *col && o.id() == Some(&last));
                        if used && refusal(&e) == Some(Refused::NoNextId) {
                            ctx.count("no_next_id");
                            return Ok(false);
                        }
                    }
                    match next.apply(op, None) {
                        Ok(_) => {}
                        Err(want) => {
                            if i > 0 {
                                ctx.count("refused_after_earlier_operations");
                            }
                            if want == Refused::Unique {
                                ctx.count("unique_refusals");
                            }
                            match refusal(&e) {
                                Some(got) => ensure!(got == want, "{}: refused with {got:?}, expected {want:?}", op.show()),
                                None => fail!("{}: failed with {e:?}, expected {want:?}", op.show()),
                            }
                            return Ok(false);
                        }
                    }
                }
                fail!("transaction [{}] was refused: {e:?}", ops.iter().map(Op::show).collect::<Vec<_>>().join("; "));
            }
        }
    }

    /// A key-value operation.
    pub fn kv_op(&mut self, op: &KeyOperation) -> Res {
        let got = classify(exec(self.db(), op, false))?;
        let want = self.kv.apply(op);
        let ok = match (&got, &want) {
            (KResult::Value(Some(a)), KResult::Value(Some(b))) => same_value(a, b),
            _ => got == want,
        };
        ensure!(ok, "{op:?}: result {}, expected {}", short(&got), short(&want));
        let refused = matches!(want, KResult::NotANumber | KResult::NotNumeric | KResult::Status(KeyStatus::NotChanged));
        if !refused && !matches!(op.command, Command::Get { delete: false }) {
            let key = (op.namespace.clone(), op.key.clone());
            let gone = !self.kv.keys.contains_key(&key);
            self.kv_events.entry(key).or_default().push(gone);
        }
        Ok(())
    }
    pub fn kv_step(&mut self, s: &mut Source, ctx: &mut Ctx) -> Res {
        let mut op = gen_kop(s, &self.kv, false);
        if let Command::Set(SetCommand { expiration, .. }) = &mut op.command {
            *expiration = None;
        }
        ctx.log(format!("{op:?}"));
        self.kv_op(&op)?;
        ctx.count("key_value_operations");
        Ok(())
    }
    pub fn kv_check(&self, what: &str) -> Res {
        let mut keys: BTreeSet<KvKey> = self.kv.keys.keys().cloned().collect();
        keys.extend(self.kv_events.keys().cloned());
        for ns in [None, Some("n"), Some("m"), Some("n/a")] {
            for k in crate::kv::KEYS {
                keys.insert((ns.map(String::from), k.to_string()));
            }
        }
        for key in keys {
            let op = KeyOperation { namespace: key.0.clone(), key: key.1.clone(), command: Command::Get { delete: false } };
            let got = classify(exec(self.db(), &op, false))?;
            let want = self.kv.keys.get(&key).map(|e| e.value.clone());
            let ok = match (&got, &want) {
                (KResult::Value(Some(a)), Some(b)) => same_value(a, b),
                (KResult::Value(None), None) => true,
                _ => false,
            };
            ensure!(ok, "{what}: key {key:?} reads {}, expected {}", short(&got), short(&want));
        }
        Ok(())
    }
    /// The key changes of the log: for every key a part of its history, and
    /// all of it in the end.
    fn check_key_log(&self, logged: &BTreeMap<KvKey, Vec<bool>>, complete: bool) -> Res {
        for (k, l) in logged {
            let mut events = self.kv_events.get(k).into_iter().flatten();
            ensure!(l.iter().all(|x| events.any(|e| e == x)), "key {k:?} is logged as changed (deleted?) {l:?}, its changes were {:?}", self.kv_events.get(k));
        }
        if complete {
            for (k, e) in &self.kv_events {
                let present = e.last() == Some(&false);
                match logged.get(k).and_then(|l| l.last()) {
                    Some(deleted) => ensure!(*deleted != present, "the last log entry of key {k:?} has deleted = {deleted}, the key is {}", if present { "present" } else { "absent" }),
                    None => ensure!(!present, "key {k:?} is set, but no change of it is in the log"),
                }
            }
        }
        Ok(())
    }

    /// Everything readable about the documents equals the model.
    pub fn check_all(&mut self, what: &str) -> Res {
        for c in self.model.all_cols().iter().copied() {
            let got = self.db().list_from_collection(Range::from(..), Sort::Ascending, None, &c.name()).or_fail(format!("{what}: listing {c:?}"))?;
            check_docs(&format!("{what}: documents of {c:?}"), &got, self.model.col(c).iter())?;
            let n = self.db().count_from_collection(Range::from(..), &c.name()).or_fail("count")?;
            ensure_eq!(n, self.model.col(c).len() as u64, "{what}: count of {c:?}");
        }
        Ok(())
    }
    pub fn check_views(&mut self, what: &str) -> Res {
        for v in self.model.all_views().iter().copied() {
            self.query(v, None, Sort::Ascending, None, AccessPolicy::UpdateBefore, what)?;
            if v.reduces() {
                self.reduce_grouped(v, None, what)?;
            }
        }
        Ok(())
    }
    pub fn query(&mut self, v: V, key: Option<SerializedQueryKey>, order: Sort, limit: Option<u32>, policy: AccessPolicy, what: &str) -> Res {
        if self.scanned.insert(v) && v.lazy() {
            self.background.insert(v);
        }
        let r = self.query_inner(v, key, order, limit, policy, what);
        if v.lazy() && matches!(policy, AccessPolicy::UpdateAfter) {
            self.background.insert(v);
        }
        r
    }
    fn query_inner(&mut self, v: V, key: Option<SerializedQueryKey>, order: Sort, limit: Option<u32>, policy: AccessPolicy, what: &str) -> Res {
        let got = self.db().query_by_name(&v.name(), key.clone(), order, limit, policy).or_fail(format!("{what}: query of {v:?} by {key:?}"))?;
        let what = format!("{what}: query of {v:?} by {key:?} {order:?} limit {limit:?} {policy:?}");
        if matches!(policy, AccessPolicy::UpdateBefore) || !v.lazy() {
            check_mappings(&what, &got, &self.model.selected(v, &key), order, limit)?;
            self.synced(v);
        } else {
            let states = &self.stale[&v];
            let mut errors = vec![];
            for st in states {
                let sel: Vec<Entry> = select(st.clone(), &key);
                match check_mappings(&what, &got, &sel, order, limit) {
                    Ok(()) => return Ok(()),
                    Err(e) => errors.push(e),
                }
            }
            // A task updating the view meanwhile works through the documents
            // in any order, so each document may be in another state.
            if self.background.contains(&v) {
                return check_mixed(&what, &got, states, &key, order, limit);
            }
            let mut e = errors.pop().expect("HARNESS: state");
            e.msg = format!("{} (no state since the last update of the view matches, {} tried)", e.msg, states.len());
            return Err(e);
        }
        Ok(())
    }
    pub fn query_docs(&mut self, v: V, key: Option<SerializedQueryKey>, order: Sort, limit: Option<u32>, what: &str) -> Res {
        let got = self.db().query_by_name_with_docs(&v.name(), key.clone(), order, limit, AccessPolicy::UpdateBefore).or_fail(format!("{what}: query_with_docs"))?;
        let what = format!("{what}: query_with_docs of {v:?} by {key:?} {order:?} limit {limit:?}");
        check_mappings(&what, &got.mappings, &self.model.selected(v, &key), order, limit)?;
        let ids: BTreeSet<DocumentId> = got.mappings.iter().map(|m| m.source.id.clone()).collect();
        let docs: Vec<OwnedDocument> = got.documents.values().cloned().collect();
        ensure!(got.documents.iter().all(|(k, d)| *k == d.header.id), "{what}: documents filed under other ids");
        check_docs(&what, &docs, self.model.col(v.col()).iter().filter(|(i, _)| ids.contains(i)))?;
        self.synced(v);
        Ok(())
    }
    pub fn reduce(&mut self, v: V, key: Option<SerializedQueryKey>, what: &str) -> Res {
        let got = self.db().reduce_by_name(&v.name(), key.clone(), AccessPolicy::UpdateBefore).or_fail(format!("{what}: reduce {v:?}"))?;
        let all: Vec<Vec<u8>> = self.model.selected(v, &key).into_iter().flat_map(|(_, m)| m.into_iter().map(|m| m.1)).collect();
        ensure_eq!(got, v.reduce(&all), "{what}: reduce of {v:?} by {key:?}");
        self.synced(v);
        Ok(())
    }
    pub fn reduce_grouped(&mut self, v: V, key: Option<SerializedQueryKey>, what: &str) -> Res {
        let got = self.db().reduce_grouped_by_name(&v.name(), key.clone(), AccessPolicy::UpdateBefore).or_fail(format!("{what}: reduce_grouped {v:?}"))?;
        let mut got: Vec<(Vec<u8>, Vec<u8>)> = got.into_iter().map(|m| (m.key.to_vec(), m.value.to_vec())).collect();
        let mut want: Vec<(Vec<u8>, Vec<u8>)> =
            self.model.selected(v, &key).into_iter().map(|(k, m)| (k, v.reduce(&m.into_iter().map(|m| m.1).collect::<Vec<_>>()))).collect();
        if matches!(key, Some(SerializedQueryKey::Multiple(_))) {
            got.sort();
            want.sort();
        }
        ensure_eq!(got, want, "{what}: reduce_grouped of {v:?} by {key:?}");
        self.synced(v);
        Ok(())
    }
    pub fn delete_docs(&mut self, v: V, key: Option<SerializedQueryKey>, what: &str) -> Res {
        let ids: BTreeSet<DocumentId> = self.model.selected(v, &key).into_iter().flat_map(|(_, m)| m.into_iter().map(|m| m.0.id)).collect();
        let n = self.db().delete_docs_by_name(&v.name(), key.clone(), AccessPolicy::UpdateBefore).or_fail(format!("{what}: delete_docs of {v:?} by {key:?}"))?;
        ensure_eq!(n, ids.len() as u64, "{what}: number of documents deleted through {v:?} by {key:?}");
        self.synced(v);
        self.deleted(v, ids);
        Ok(())
    }
    /// Documents were deleted through the view.
    pub fn deleted(&mut self, v: V, ids: BTreeSet<DocumentId>) {
        let mut entry = LogEntry::new();
        for id in ids {
            self.model.col_mut(v.col()).remove(&id);
            entry.push((v.col(), id, true));
        }
        self.unordered.insert(self.log.len());
        self.note_log(entry);
        self.note_states();
    }
    /// The view was accessed.
    pub fn touched(&mut self, v: V, policy: AccessPolicy) {
        if matches!(policy, AccessPolicy::UpdateBefore) || !v.lazy() {
            self.synced(v);
        } else if matches!(policy, AccessPolicy::UpdateAfter) {
            self.background.insert(v);
        }
    }

    /// The transaction log against the applied transactions.
    pub fn check_log(&mut self, s: &mut Source, ctx: &mut Ctx) -> Res {
        self.check_log_at(s, ctx, false)
    }
    /// `reopened`: nothing was changed since the database was opened.
    pub fn check_log_at(&mut self, s: &mut Source, ctx: &mut Ctx, reopened: bool) -> Res {
        let mut keys: BTreeMap<KvKey, Vec<bool>> = BTreeMap::new();
        let db = self.db.clone().expect("HARNESS: open");
        let last = db.last_transaction_id().or_fail("last_transaction_id")?;
        // Read everything in pages of a random size.
        let page = if s.bool() && !self.wide { 1 + s.draw(4) as u32 } else { 1000 };
        let mut got: Vec<(u64, LogEntry)> = vec![];
        let mut from = None;
        loop {
            let part = db.list_executed_transactions(from, Some(page)).or_fail("list_executed_transactions")?;
            ensure!(part.len() <= page as usize, "{} transactions listed with limit {page}", part.len());
            let n = part.len();
            for e in part {
                let mut entry = LogEntry::new();
                match &e.changes {
                    Changes::Documents(d) => {
                        for (c, d) in d.iter() {
                            let Some(c) = Col::of(c) else { fail!("transaction {} names collection {c}", e.id) };
                            entry.push((c, d.id.clone(), d.deleted));
                        }
                    }
                    Changes::Keys(k) => {
                        for k in k {
                            keys.entry((k.namespace.clone(), k.key.clone())).or_default().push(k.deleted);
                            ctx.count("logged_key_changes");
                        }
                    }
                }
                ensure!(got.last().map_or(true, |(l, _)| *l < e.id), "transaction ids do not increase: {} after {:?}", e.id, got.last().map(|l| l.0));
                ensure!(from.map_or(true, |f| e.id >= f), "transaction {} listed from {from:?}", e.id);
                got.push((e.id, entry));
            }
            if n < page as usize {
                break;
            }
            from = got.last().map(|g| g.0 + 1);
        }
        self.check_key_log(&keys, reopened)?;
        if let Some((l, _)) = got.last() {
            // Key-value changes are committed in the background.
            let now = db.last_transaction_id().or_fail("last_transaction_id")?;
            ensure!(now.is_some_and(|last| last >= *l), "last_transaction_id {now:?} is before the listed transaction {l}");
        }
        // Transactions which changed nothing may be listed or not.
        let strip = |e: &LogEntry| e.is_empty();
        let mut got_n: Vec<LogEntry> = got.iter().map(|g| g.1.clone()).filter(|e| !strip(e)).collect();
        let mut want_n: Vec<LogEntry> = vec![];
        for (i, e) in self.log.iter().enumerate().filter(|(_, e)| !strip(e)) {
            let at = want_n.len();
            want_n.push(e.clone());
            if self.unordered.contains(&i) {
                want_n[at].sort();
                if let Some(g) = got_n.get_mut(at) {
                    g.sort();
                }
            }
        }
        if got_n != want_n {
            let at = got_n.iter().zip(&want_n).position(|(a, b)| a != b).unwrap_or(got_n.len().min(want_n.len()));
            fail!("transaction log differs at entry {at}: listed {} of {}, applied {} of {}", short(&got_n.get(at)), got_n.len(), short(&want_n.get(at)), want_n.len());
        }
        let ids: Vec<u64> = got.iter().filter(|g| !strip(&g.1)).map(|g| g.0).collect();
        ensure!(ids.starts_with(&self.log_ids), "ids of logged transactions changed: {ids:?}, before {:?}", self.log_ids);
        ensure!(ids[self.log_ids.len()..].iter().all(|i| *i > self.floor), "transactions after {} have ids {:?}", self.floor, &ids[self.log_ids.len()..]);
        self.log_ids = ids;
        if let Some(l) = last {
            ensure!(l >= self.floor, "last_transaction_id went back from {} to {l}", self.floor);
            self.floor = l;
        }
        ctx.count("log_checks");
        ctx.add("log_entries_compared", self.log.len() as u64);
        // A window from an arbitrary id.
        if !got.is_empty() && !self.wide {
            let from = s.draw(self.floor + 2);
            let n = s.draw(5) as u32;
            let part = db.list_executed_transactions(Some(from), Some(n)).or_fail("list_executed_transactions")?;
            let part: Vec<u64> = part.iter().map(|e| e.id).collect();
            let mut want: Vec<u64> = got.iter().map(|g| g.0).filter(|i| *i >= from).take(n as usize).collect();
            // Key-value changes are committed in the background.
            let newest = got.last().map_or(0, |g| g.0);
            if !self.kv_events.is_empty() && part.len() <= n as usize {
                want.extend(part.iter().skip(want.len()).filter(|i| **i > newest));
            }
            ensure_eq!(part, want, "transactions from {from} limit {n}");
        }
        Ok(())
    }
}

type ViewState = BTreeMap<Vec<u8>, Vec<(Header, Vec<u8>)>>;
/// Each document's mappings are those of one of the states.
fn check_mixed(what: &str, got: &[bonsaidb_core::schema::view::map::Serialized], states: &[ViewState], key: &Option<SerializedQueryKey>, order: Sort, limit: Option<u32>) -> Res {
    type PerDoc = BTreeMap<DocumentId, BTreeSet<(Vec<u8>, (u32, [u8; 32]), Vec<u8>)>>;
    let mut per_state: Vec<PerDoc> = vec![];
    for st in states {
        let mut m = PerDoc::new();
        for (k, maps) in select(st.clone(), key) {
            for (h, v) in maps {
                m.entry(h.id).or_default().insert((k.clone(), (h.revision.id, h.revision.sha256), v));
            }
        }
        per_state.push(m);
    }
    let mut mine = PerDoc::new();
    for g in got {
        let new = mine.entry(g.source.id.clone()).or_default().insert((g.key.to_vec(), (g.source.revision.id, g.source.revision.sha256), g.value.to_vec()));
        ensure!(new, "{what}: the mapping {g:?} is repeated");
    }
    for w in got.windows(2) {
        let sorted = if matches!(order, Sort::Ascending) { w[0].key <= w[1].key } else { w[0].key >= w[1].key };
        ensure!(sorted, "{what}: keys are not in order: {w:?}");
    }
    if let Some(l) = limit {
        ensure!(got.len() <= l as usize, "{what}: {} mappings", got.len());
    }
    let cut = limit.is_some_and(|l| got.len() >= l as usize);
    let none = BTreeSet::new();
    let ids: BTreeSet<&DocumentId> = mine.keys().chain(per_state.iter().flat_map(BTreeMap::keys)).collect();
    for id in ids {
        let have = mine.get(id).unwrap_or(&none);
        let fits = per_state.iter().map(|st| st.get(id).unwrap_or(&none)).any(|o| if cut { have.is_subset(o) } else { have == o });
        ensure!(fits, "{what}: document {id:?} has the mappings {}, which it had in none of the {} states since the view was last up to date", short(have), states.len());
    }
    Ok(())
}

pub fn select(all: BTreeMap<Vec<u8>, Vec<(Header, Vec<u8>)>>, key: &Option<SerializedQueryKey>) -> Vec<Entry> {
    let all = all.into_iter();
    match key {
        None => all.collect(),
        Some(SerializedQueryKey::Matches(k)) => all.filter(|(x, _)| x[..] == k[..]).collect(),
        Some(SerializedQueryKey::Range(r)) => {
            let r = r.clone().map(|b| b.to_vec());
            all.filter(|(x, _)| contains(&r, x)).collect()
        }
        Some(SerializedQueryKey::Multiple(ks)) => all.filter(|(x, _)| ks.iter().any(|k| x[..] == k[..])).collect(),
    }
}

/// Which interface performs a write.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Transaction,
    /// The typed methods of the connection, for single operations.
    Methods,
    /// Their asynchronous counterparts.
    Async,
    /// A transaction of operations made from deserialized contents.
    Builders,
}
pub fn gen_via(s: &mut Source, single: bool) -> Via {
    if single {
        [Via::Methods, Via::Transaction, Via::Async, Via::Builders][s.weighted(&[3, 3, 1, 1])]
    } else {
        [Via::Transaction, Via::Builders, Via::Async][s.weighted(&[3, 1, 1])]
    }
}

fn run_ops(db: &Database, ops: &[Op], via: Via) -> Result<Vec<OperationResult>, Error> {
    if via == Via::Methods && ops.len() == 1 {
        let op = &ops[0];
        let r = match op.col() {
            Col::Item => by_methods::<Item>(db, op),
            Col::Named => by_methods::<Named>(db, op),
            Col::Raw => by_methods::<Raw>(db, op),
            Col::Secret => by_methods::<Secret>(db, op),
        };
        if let Some(r) = r {
            return r.map(|r| vec![r]);
        }
    }
    let rt = crate::denied::rt();
    let adb = db.to_async_with_runtime(rt.handle().clone());
    if via == Via::Async && ops.len() == 1 {
        let op = &ops[0];
        let r = rt.block_on(async {
            match op.col() {
                Col::Item => by_async::<Item>(&adb, op).await,
                Col::Named => by_async::<Named>(&adb, op).await,
                Col::Raw => by_async::<Raw>(&adb, op).await,
                Col::Secret => by_async::<Secret>(&adb, op).await,
            }
        });
        if let Some(r) = r {
            return r.map(|r| vec![r]);
        }
    }
    if via == Via::Builders {
        let mut all = ops.iter().map(built);
        let mut t = match all.next() {
            Some(Ok(first)) => Transaction::from(first),
            Some(Err(e)) => return Err(e),
            None => Transaction::new(),
        };
        for o in all {
            t = t.with(o?);
        }
        return t.apply(db);
    }
    let mut t = Transaction::new();
    for o in ops {
        t.push(o.operation());
    }
    if via == Via::Async {
        return rt.block_on(t.apply_async(&adb));
    }
    db.apply_transaction(t)
}
/// The operation by the constructors for typed contents, where they apply.
fn built(op: &Op) -> Result<Operation, Error> {
    match op.col() {
        Col::Item => built_in::<Item>(op),
        Col::Named => built_in::<Named>(op),
        Col::Secret => built_in::<Secret>(op),
        Col::Raw => Ok(match op.clone() {
            Op::Check { col, id, rev: None } => Operation::check_document_id_exists(col.name(), id),
            Op::Check { id, rev: Some(revision), .. } => Operation::check_document_is_current::<Raw, _>(&Header { id, revision })?,
            op => op.operation(),
        }),
    }
}
fn built_in<C: SerializedCollection>(op: &Op) -> Result<Operation, Error> {
    let typed = |contents: &Vec<u8>| C::deserialize(contents).ok().filter(|c| C::serialize(c).is_ok_and(|b| b == *contents));
    let key = |id: &DocumentId| id.deserialize::<C::PrimaryKey>().ok().filter(|k| DocumentId::new(k).is_ok_and(|b| b == *id));
    Ok(match op {
        Op::Insert { id: None, contents, .. } => match typed(contents) {
            Some(c) => Operation::insert_serialized::<C>(None, &c)?,
            None => op.operation(),
        },
        Op::Insert { id: Some(id), contents, .. } => match (typed(contents), key(id)) {
            (Some(c), Some(_)) if C::natural_id(&c).is_some_and(|n| DocumentId::new(&n).is_ok_and(|n| n == *id))  => Operation::push_serialized::<C>(&c)?,
            (Some(c), Some(k)) => Operation::insert_serialized::<C>(Some(&k), &c)?,
            _ => op.operation(),
        },
        Op::Update { header, contents, .. } => match (typed(contents), key(&header.id)) {
            (Some(c), Some(id)) => Operation::update_serialized::<C>(CollectionHeader { id, revision: header.revision }, &c)?,
            _ => op.operation(),
        },
        Op::Overwrite { id, contents, .. } => match (typed(contents), key(id)) {
            (Some(c), Some(k)) => Operation::overwrite_serialized::<C, _>(&k, &c)?,
            _ => op.operation(),
        },
        Op::Check { id, rev: None, .. } => match key(id) {
            Some(k) => Operation::check_document_exists::<C>(&k)?,
            None => op.operation(),
        },
        Op::Check { id, rev: Some(revision), .. } => Operation::check_document_is_current::<C, _>(&Header { id: id.clone(), revision: *revision })?,
        Op::Delete { .. } => op.operation(),
    })
}
async fn by_async<C: Collection>(db: &AsyncDatabase, op: &Op) -> Option<Result<OperationResult, Error>>
where
    C::PrimaryKey: Send + Sync + std::fmt::Debug,
{
    let updated = |h: Result<CollectionHeader<C::PrimaryKey>, Error>| {
        h.and_then(|h| {
            Ok(OperationResult::DocumentUpdated { collection: C::collection_name(), header: Header { id: DocumentId::new(&h.id)?, revision: h.revision } })
        })
    };
    Some(match op {
        Op::Insert { id: None, contents, .. } => updated(AsyncConnection::collection::<C>(db).push_bytes(contents.clone()).await),
        Op::Insert { id: Some(id), contents, .. } => match id.deserialize::<C::PrimaryKey>() {
            Ok(k) => updated(AsyncConnection::collection::<C>(db).insert_bytes(&k, contents.clone()).await),
            Err(_) => return None,
        },
        Op::Update { header, contents, .. } => {
            let mut doc = OwnedDocument { header: header.clone(), contents: Bytes::from(contents.clone()) };
            AsyncConnection::collection::<C>(db).update(&mut doc).await.map(|()| OperationResult::DocumentUpdated { collection: C::collection_name(), header: doc.header })
        }
        Op::Overwrite { id, contents, .. } => match id.deserialize::<C::PrimaryKey>() {
            Ok(k) => updated(AsyncLowLevelConnection::overwrite::<C, _>(db, &k, contents.clone()).await),
            Err(_) => return None,
        },
        Op::Delete { header, .. } => {
            let doc = OwnedDocument { header: header.clone(), contents: Bytes::default() };
            AsyncConnection::collection::<C>(db).delete(&doc).await.map(|()| OperationResult::DocumentDeleted { collection: C::collection_name(), id: header.id.clone() })
        }
        Op::Check { .. } => return None,
    })
}
fn by_methods<C: Collection>(db: &Database, op: &Op) -> Option<Result<OperationResult, Error>>
where
    C::PrimaryKey: Send + Sync + std::fmt::Debug,
{
    let updated = |h: Result<CollectionHeader<C::PrimaryKey>, Error>| {
        h.and_then(|h| {
            Ok(OperationResult::DocumentUpdated { collection: C::collection_name(), header: Header { id: DocumentId::new(&h.id)?, revision: h.revision } })
        })
    };
    Some(match op {
        Op::Insert { id: None, contents, .. } => updated(db.collection::<C>().push_bytes(contents.clone())),
        Op::Insert { id: Some(id), contents, .. } => match id.deserialize::<C::PrimaryKey>() {
            Ok(k) => updated(db.collection::<C>().insert_bytes(&k, contents.clone())),
            Err(_) => return None,
        },
        Op::Update { header, contents, .. } => {
            let mut doc = OwnedDocument { header: header.clone(), contents: Bytes::from(contents.clone()) };
            db.update::<C, _>(&mut doc).map(|()| OperationResult::DocumentUpdated { collection: C::collection_name(), header: doc.header })
        }
        Op::Overwrite { id, contents, .. } => match id.deserialize::<C::PrimaryKey>() {
            Ok(k) => updated(LowLevelConnection::overwrite::<C, _>(db, &k, contents.clone())),
            Err(_) => return None,
        },
        Op::Delete { header, .. } => {
            let doc = OwnedDocument { header: header.clone(), contents: Bytes::default() };
            db.delete::<C, _>(&doc).map(|()| OperationResult::DocumentDeleted { collection: C::collection_name(), id: header.id.clone() })
        }
        Op::Check { .. } => return None,
    })
}

// ---------- steps ----------

pub fn gen_ops(s: &mut Source, w: &World, max: usize) -> Vec<Op> {
    gen_ops_for(s, &w.model, &w.history, max)
}
pub fn gen_ops_for(s: &mut Source, model: &Model, history: &[(Col, Header)], max: usize) -> Vec<Op> {
    let n = 1 + s.draw(max as u64 - 1) as usize;
    // A scratch model makes later operations of the transaction meaningful.
    let mut m = model.clone();
    let mut ops: Vec<Op> = vec![];
    let mut closed: BTreeSet<Col> = BTreeSet::new();
    for _ in 0..n {
        let col = gen_col(s, model);
        if closed.contains(&col) {
            continue;
        }
        let op = gen_op_in(s, &m, history, col);
        if matches!(op, Op::Insert { id: None, .. }) {
            // The id is not known, so nothing may depend on it.
            closed.insert(col);
        }
        let _ = m.apply(&op, None);
        ops.push(op);
    }
    if ops.is_empty() {
        ops.push(gen_op(s, &m, history));
    }
    ops
}
pub fn gen_key(s: &mut Source, w: &World, v: V) -> Option<SerializedQueryKey> {
    gen_key_for(s, &w.model, v)
}
pub fn gen_key_for(s: &mut Source, model: &Model, v: V) -> Option<SerializedQueryKey> {
    let keys: Vec<Vec<u8>> = model.view(v).into_keys().collect();
    let k = |s: &mut Source| -> Bytes {
        if !keys.is_empty() && s.chance(3, 4) {
            Bytes::from(s.pick(&keys).clone())
        } else {
            Bytes::from(v.gen_key(s))
        }
    };
    match s.weighted(&[2, 3, 3, 3]) {
        0 => None,
        1 => Some(SerializedQueryKey::Matches(k(s))),
        2 => {
            let b = |s: &mut Source| match s.draw(2) {
                0 => Bound::Unbounded,
                1 => Bound::Included(k(s)),
                _ => Bound::Excluded(k(s)),
            };
            Some(SerializedQueryKey::Range(Range { start: b(s), end: b(s) }))
        }
        _ => {
            // Whether a repeated key repeats its mappings is not specified.
            let mut keys: Vec<Bytes> = vec![];
            for x in s.list(0, 5, 3, |s| k(s)) {
                if !keys.contains(&x) {
                    keys.push(x);
                }
            }
            Some(SerializedQueryKey::Multiple(keys))
        }
    }
}
pub fn gen_sort(s: &mut Source) -> Sort {
    if s.bool() { Sort::Descending } else { Sort::Ascending }
}
pub fn gen_limit(s: &mut Source) -> Option<u32> {
    match s.draw(3) {
        0 | 1 => None,
        2 => Some(s.draw(4) as u32),
        _ => Some(s.draw(40) as u32),
    }
}

pub fn list_step(s: &mut Source, w: &World, ctx: &mut Ctx) -> Res {
    let c = gen_col(s, &w.model);
    let name = c.name();
    let mut r = gen_range(s, c);
    let ids: Vec<DocumentId> = w.model.col(c).keys().cloned().collect();
    if !ids.is_empty() {
        for b in [&mut r.start, &mut r.end] {
            if s.bool() {
                match b {
                    Bound::Unbounded => {}
                    Bound::Included(i) | Bound::Excluded(i) => *i = s.pick(&ids).clone(),
                }
            }
        }
    }
    let (order, limit) = (gen_sort(s), gen_limit(s));
    let what = format!("list {c:?} {r:?} {order:?} limit {limit:?}");
    ctx.log(what.clone());
    let mut want: Vec<(&DocumentId, &Doc)> = w.model.col(c).iter().filter(|(i, _)| contains(&r, i)).collect();
    let in_range = want.len();
    if matches!(order, Sort::Descending) {
        want.reverse();
    }
    if let Some(l) = limit {
        want.truncate(l as usize);
    }
    if in_range > 0 && in_range < w.model.col(c).len() || want.len() < in_range {
        ctx.count("listings_selecting_a_proper_part");
        ctx.nontrivial();
    }
    let got = w.db().list_from_collection(r.clone(), order, limit, &name).or_fail(&what)?;
    check_docs(&what, &got, want.iter().copied())?;
    let got = w.db().list_headers_from_collection(r.clone(), order, limit, &name).or_fail(&what)?;
    let want: Vec<(DocumentId, Revision)> = want.iter().map(|(i, d)| ((*i).clone(), d.rev)).collect();
    ensure_eq!(got.into_iter().map(|h| (h.id, h.revision)).collect::<Vec<_>>(), want, "{what}: headers");
    let n = w.db().count_from_collection(r.clone(), &name).or_fail(&what)?;
    ensure_eq!(n, in_range as u64, "{what}: count");
    Ok(())
}
pub fn get_step(s: &mut Source, w: &World, ctx: &mut Ctx) -> Res {
    let c = gen_col(s, &w.model);
    let ids: Vec<DocumentId> = w.model.col(c).keys().cloned().collect();
    let wanted: Vec<DocumentId> = s.list(0, 8, 4, |s| if !ids.is_empty() && s.chance(3, 4) { s.pick(&ids).clone() } else { gen_id(s, c) });
    ctx.log(format!("get {c:?} {wanted:?}"));
    for id in &wanted {
        let got = w.db().get_from_collection(id.clone(), &c.name()).or_fail("get")?;
        let got: Vec<OwnedDocument> = got.into_iter().collect();
        check_docs(&format!("get {c:?} {id:?}"), &got, w.model.col(c).get_key_value(id).into_iter())?;
    }
    // Each existing document once, in no particular order.
    let mut got = w.db().get_multiple_from_collection(&wanted, &c.name()).or_fail("get_multiple")?;
    got.sort_by(|a, b| a.header.id.cmp(&b.header.id));
    let set: BTreeSet<&DocumentId> = wanted.iter().collect();
    if set.len() < wanted.len() {
        ctx.count("get_multiple_with_repeated_ids");
        got.dedup_by(|a, b| a.header.id == b.header.id);
    }
    check_docs(&format!("get_multiple {c:?} {wanted:?}"), &got, w.model.col(c).iter().filter(|(i, _)| set.contains(i)))?;
    Ok(())
}
pub fn view_step(s: &mut Source, w: &mut World, ctx: &mut Ctx) -> Res {
    let v = *s.pick(w.model.all_views());
    let key = gen_key(s, w, v);
    let (order, limit) = (gen_sort(s), gen_limit(s));
    let kind = s.draw(9);
    ctx.log(format!("view {v:?} kind {kind} by {key:?} {order:?} limit {limit:?}"));
    let n = w.model.selected(v, &key).len();
    if n > 0 {
        ctx.nontrivial();
        ctx.count("view_reads_with_results");
    }
    match kind {
        0..=3 => w.query(v, key, order, limit, AccessPolicy::UpdateBefore, "history"),
        4 => w.query(v, key, order, limit, AccessPolicy::NoUpdate, "history"),
        5 => w.query(v, key, order, limit, AccessPolicy::UpdateAfter, "history"),
        6 => w.query_docs(v, key, order, limit, "history"),
        7 if v.reduces() => w.reduce(v, key, "history"),
        8 if v.reduces() => w.reduce_grouped(v, key, "history"),
        _ => w.query_docs(v, key, order, limit, "history"),
    }
}

/// Relative frequencies of the steps of a history.
#[derive(Clone, Copy)]
pub struct Mix {
    pub single: u64,
    pub multi: u64,
    pub list: u64,
    pub get: u64,
    pub view: u64,
    pub delete_docs: u64,
    pub reopen: u64,
    pub compact: u64,
    pub log: u64,
    pub bulk: u64,
    pub steps: u64,
    /// Documents mostly belong to the unique view.
    pub unique: bool,
    pub kv: u64,
}
pub const MIX: Mix = Mix { single: 20, multi: 6, list: 4, get: 3, view: 6, delete_docs: 1, reopen: 1, compact: 1, log: 1, bulk: 1, steps: 25, unique: false, kv: 0 };

/// Many documents at once, to reach trees of several levels.
pub fn gen_bulk(s: &mut Source, w: &World) -> Vec<Op> {
    let col = *s.pick(w.model.all_cols());
    let n = 1 + if s.chance(1, 4) { s.draw(700) } else { s.draw(60) };
    let start = s.draw(40);
    let step = 1 + s.draw(3);
    let mut ops = vec![];
    let mut seed = Rng::new(s.fork_seed());
    let mut src = Source::random(seed.next());
    for i in 0..n {
        let k = start + i * step;
        let id = match col {
            Col::Item | Col::Secret => DocumentId::from_u64(k),
            Col::Named => DocumentId::try_from(format!("k{k}").as_bytes()).expect("HARNESS: id"),
            Col::Raw => DocumentId::try_from(&k.to_be_bytes()[6..]).expect("HARNESS: id"),
        };
        match w.model.header(col, &id) {
            Some(header) if s.chance(1, 3) => ops.push(Op::Delete { col, header }),
            _ => {
                let contents = match col {
                    Col::Raw => vec![k as u8; src.draw(4) as usize],
                    Col::Item => {
                        let mut i = gen_item(&mut src);
                        if i.text.starts_with('u') {
                            i.text = format!("u{}", k + 10_000);
                        }
                        item_bytes(&i)
                    }
                    Col::Named | Col::Secret => gen_contents(&mut src, col),
                };
                ops.push(Op::Overwrite { col, id, contents });
            }
        }
    }
    ops
}

fn make_unique(s: &mut Source, op: &mut Op) {
    if let Op::Insert { col: Col::Item, contents, .. } | Op::Update { col: Col::Item, contents, .. } | Op::Overwrite { col: Col::Item, contents, .. } = op {
        if s.chance(3, 4) {
            let mut i = gen_item(s);
            i.text = format!("u{}", s.draw(5));
            *contents = item_bytes(&i);
        }
    }
}

pub fn step(s: &mut Source, w: &mut World, mix: &Mix, ctx: &mut Ctx) -> Res {
    match s.weighted(&[mix.single, mix.multi, mix.list, mix.get, mix.view, mix.delete_docs, mix.reopen, mix.compact, mix.log, mix.bulk, mix.kv]) {
        0 => {
            let mut op = gen_op(s, &w.model, &w.history);
            if mix.unique {
                make_unique(s, &mut op);
            }
            let via = gen_via(s, true);
            ctx.log(format!("{} ({via:?})", op.show()));
            let (col, id) = (op.col(), op.id().cloned());
            w.tx(&[op], via, ctx)?;
            if let Some(id) = id {
                let got = w.db().get_from_collection(id.clone(), &col.name()).or_fail("get")?;
                let got: Vec<OwnedDocument> = got.into_iter().collect();
                check_docs(&format!("get {col:?} {id:?} after the write"), &got, w.model.col(col).get_key_value(&id).into_iter())?;
            }
        }
        1 => {
            let mut ops = gen_ops(s, w, 6);
            if mix.unique {
                ops.iter_mut().for_each(|o| make_unique(s, o));
            }
            let via = gen_via(s, false);
            ctx.log(format!("transaction [{}] ({via:?})", ops.iter().map(Op::show).collect::<Vec<_>>().join("; ")));
            w.tx(&ops, via, ctx)?;
            w.check_all("after a transaction")?;
        }
        2 => list_step(s, w, ctx)?,
        3 => get_step(s, w, ctx)?,
        4 => view_step(s, w, ctx)?,
        5 => {
            let v = *s.pick(w.model.all_views());
            let key = gen_key(s, w, v);
            ctx.log(format!("delete_docs of {v:?} by {key:?}"));
            w.delete_docs(v, key, "history")?;
            ctx.count("delete_docs");
        }
        6 if !w.reopenable() => {}
        6 => {
            ctx.log("reopen");
            ctx.count("reopens");
            w.reopen()?;
            w.check_all("after reopening")?;
            if mix.kv > 0 {
                w.check_log_at(s, ctx, true)?;
            }
        }
        7 => {
            let c = gen_col(s, &w.model);
            ctx.log(format!("compact {c:?}"));
            ctx.count("compactions");
            match s.draw(2) {
                0 => w.db().compact().or_fail("compact")?,
                _ => w.db().compact_collection_by_name(c.name()).or_fail("compact_collection")?,
            }
            w.check_all("after compaction")?;
        }
        8 => {
            ctx.log("check log");
            w.check_log(s, ctx)?;
        }
        10 => w.kv_step(s, ctx)?,
        _ => {
            let ops = gen_bulk(s, w);
            let split = s.bool();
            ctx.log(format!("bulk of {} operations on {:?}, {}", ops.len(), ops[0].col(), if split { "in parts" } else { "at once" }));
            for part in ops.chunks(if split { 20 } else { usize::MAX }) {
                w.tx(part, Via::Transaction, ctx)?;
            }
        }
    }
    Ok(())
}
pub fn history(s: &mut Source, ctx: &mut Ctx, mix: &Mix) -> Res {
    use bonsaidb_local::config::Builder;
    let persistence = (mix.kv > 0).then(|| crate::kv::gen_persistence(s));
    let memory = s.chance(1, 6);
    let integrity = s.chance(1, 5);
    let unique = s.chance(1, 8).then(|| s.interesting_u64(u64::MAX));
    let workers = s.chance(1, 5).then(|| (1 + s.draw(3) as usize, 1 + s.draw(3) as usize));
    ctx.log(format!("{persistence:?} memory {memory} integrity check {integrity} id {unique:?} workers {workers:?}"));
    if memory {
        ctx.count("histories_in_memory");
    }
    if integrity {
        ctx.count("histories_with_integrity_checks");
    }
    let mut w = World::with(
        std::sync::Arc::new(move |p: &Path| {
            let mut c = config(p).check_view_integrity_on_open(integrity);
            if memory {
                c = c.memory_only();
            }
            if let Some(persistence) = &persistence {
                c = c.key_value_persistence(persistence.clone());
            }
            if let Some(id) = unique {
                c = c.unique_id(id);
            }
            if let Some((count, parallel)) = workers {
                c = c.tasks_worker_count(count).tasks_parallelization(parallel);
            }
            Storage::open(c).or_fail("opening storage")
        }),
        false,
    )?;
    w.memory = memory;
    w.integrity = integrity;
    w.opened();
    if let Some(id) = unique {
        let got = w.storage.as_ref().expect("HARNESS: open").unique_id().as_u64();
        ensure!(got == id, "the storage has the unique id {got:?}, configured was {id}");
    }
    history_in(w, s, ctx, mix)
}
pub fn history_in(mut w: World, s: &mut Source, ctx: &mut Ctx, mix: &Mix) -> Res {
    let n = 3 + s.draw(mix.steps);
    for _ in 0..n {
        step(s, &mut w, mix, ctx)?;
    }
    w.check_all("at the end")?;
    if mix.view > 0 {
        w.check_views("at the end")?;
    }
    w.check_log(s, ctx)?;
    if s.bool() && w.reopenable() {
        w.reopen()?;
        w.check_all("after the last reopening")?;
        if mix.view > 0 {
            w.check_views("after the last reopening")?;
        }
        w.kv_check("after the last reopening")?;
        w.check_log_at(s, ctx, true)?;
    }
    Ok(())
}


/// Histories whose failure is a known finding of its own.
fn known_wide_log(_s: &mut Source, ctx: &mut Ctx) -> Res {
    ctx.nontrivial();
    [300, 400, 500, 600, 700, 800].into_iter().try_for_each(|n| wide_log(n, ctx))
}
fn wide_log(n: u64, ctx: &mut Ctx) -> Res {
    let mut w = World::new()?;
    let bulk = |n: u64| -> Vec<Op> {
        (0..n).map(|k| Op::Overwrite { col: Col::Raw, id: DocumentId::try_from(&k.to_be_bytes()[..]).expect("HARNESS: id"), contents: vec![1] }).collect()
    };
    // Refused transactions use transaction ids without log pages.
    for _ in 0..20 {
        w.tx(&[Op::Check { col: Col::Item, id: DocumentId::from_u64(1), rev: None }], Via::Transaction, ctx)?;
    }
    w.tx(&bulk(n), Via::Transaction, ctx)?;
    w.tx(&[Op::Overwrite { col: Col::Item, id: DocumentId::from_u64(1), contents: item_bytes(&Item::default()) }], Via::Transaction, ctx)?;
    for k in ["a", "b", "c"] {
        w.tx(&[Op::Overwrite { col: Col::Named, id: DocumentId::try_from(k.as_bytes()).expect("HARNESS: id"), contents: vec![] }], Via::Transaction, ctx)?;
    }
    w.check_all("before closing")?;
    w.reopen()?;
    w.check_all("after reopening").map_err(|mut e| {
        e.sig = "lost-after-reopen-behind-multi-page-log-entry".into();
        e
    })
}

pub const ASSUME: &[&str] = &[
    "the file system keeps what was written to it; nebari is exercised, not modelled",
    "databases whose transaction log has an entry of more than one 1024-byte page are not reopened (known finding, C03-known)",
];
/// Drives one kind of history; `nontrivial` names counters which must all be
/// present for a case to count.
fn driven(s: &mut Source, c: &mut Ctx, mix: &Mix, need: &[&str]) -> Res {
    let r = history(s, c, mix);
    if need.iter().all(|n| c.counters.contains_key(*n)) {
        c.nontrivial();
    }
    r
}
pub fn c03() -> Property {
    Property {
        id: "C03",
        level: "exploration",
        rule: "a case is a history of writes (insert, update with current/stale/forged revisions, overwrite, delete, check; typed methods and transactions; reopenings, compactions) on three collections compared after every step with a revision-guarded map; non-trivial = at least one write applied and one refused",
        assumptions: ASSUME,
        sections: vec![
            section("writes", 3_000, 300_000, |s, c| {
                driven(s, c, &Mix { single: 40, multi: 3, list: 1, get: 3, view: 0, delete_docs: 0, log: 0, bulk: 1, ..MIX }, &["transactions_applied", "transactions_refused"])
            }),
            section("known", 1, 1, known_wide_log),
        ],
    }
}
pub fn c04() -> Property {
    Property {
        id: "C04",
        level: "exploration",
        rule: "a case is a history of writes with listings (documents and headers), counts and multi-gets by generated ranges, orders and limits, compared with the model; non-trivial = a listing selected a proper, non-empty part",
        assumptions: ASSUME,
        sections: vec![section("listings", 2_500, 250_000, |s, c| {
            driven(s, c, &Mix { single: 10, multi: 2, list: 25, get: 8, view: 0, delete_docs: 0, log: 0, bulk: 3, steps: 40, ..MIX }, &["listings_selecting_a_proper_part"])
        })],
    }
}
pub fn c05() -> Property {
    Property {
        id: "C05",
        level: "exploration",
        rule: "a case is a history of transactions of up to 6 operations over three collections (a unique view among them), a share of which fails at a later operation; after each, all documents, counts, results and the log equal a model that applied all of it or none; non-trivial = a transaction of several operations applied and one refused after earlier operations",
        assumptions: ASSUME,
        sections: vec![section("transactions", 2_500, 250_000, |s, c| {
            driven(s, c, &Mix { single: 4, multi: 30, list: 1, get: 1, view: 2, log: 2, ..MIX }, &["multi_operation_transactions_applied", "refused_after_earlier_operations"])
        })],
    }
}
pub fn c06() -> Property {
    Property {
        id: "C06",
        level: "exploration",
        rule: "a case is a history of transactions with the log read in pages and windows, across reopenings and compactions, and compared with the applied transactions; non-trivial = at least three log entries compared over two checks",
        assumptions: ASSUME,
        sections: vec![section("log", 2_500, 250_000, |s, c| {
            let r = history(s, c, &Mix { single: 14, multi: 10, list: 0, get: 0, view: 2, log: 10, reopen: 2, kv: 6, ..MIX });
            if c.counters.get("log_entries_compared").copied().unwrap_or(0) >= 3 && c.counters.get("log_checks").copied().unwrap_or(0) >= 2 {
                c.nontrivial();
            }
            r
        })],
    }
}
pub fn c07() -> Property {
    Property {
        id: "C07",
        level: "exploration",
        rule: "a case is a history of writes and view accesses under every access policy on lazy, eager and unique views, across reopenings (also with views redefined under another version) and past map functions which fail or panic, compared with the views recomputed from the model; non-trivial = a view with mappings was read, redefined views were read, or mapping failed",
        assumptions: ASSUME,
        sections: [section("views", 2_000, 200_000, |s, c| {
            driven(s, c, &Mix { single: 20, multi: 6, list: 0, get: 0, view: 12, delete_docs: 2, reopen: 2, compact: 1, log: 0, bulk: 1, steps: 30, unique: false, kv: 0 }, &["view_reads_with_results", "transactions_applied"])
        })].into_iter().chain(crate::upgrade::sections()).chain(crate::big::sections()).collect(),
    }
}
pub fn c09() -> Property {
    Property {
        id: "C09",
        level: "exploration",
        rule: "a case is a set of documents and many view queries (key, range, several keys; order, limit; with documents, reduced, grouped, deleting) compared with selecting from the recomputed view; non-trivial = a query had results",
        assumptions: ASSUME,
        sections: vec![section("queries", 2_000, 200_000, |s, c| {
            driven(s, c, &Mix { single: 8, multi: 6, list: 0, get: 0, view: 40, delete_docs: 3, reopen: 1, compact: 0, log: 0, bulk: 2, steps: 40, unique: false, kv: 0 }, &["view_reads_with_results"])
        }), section("typed", 1_500, 150_000, crate::vquery::typed)],
    }
}
pub fn c08() -> Property {
    Property {
        id: "C08",
        level: "exploration",
        rule: "a case is a history of writes, transactions, deletions, compactions and reopenings whose documents mostly emit one of six keys of a unique view; every write is refused exactly when another document of the model holds the key, and the view equals its recomputation; non-trivial = a write was refused for its key and several were applied",
        assumptions: ASSUME,
        sections: vec![section("unique", 2_500, 250_000, |s, c| {
            driven(s, c, &Mix { single: 25, multi: 12, list: 0, get: 0, view: 5, delete_docs: 1, reopen: 2, compact: 1, log: 0, bulk: 1, steps: 40, unique: true, kv: 0 }, &["unique_refusals", "transactions_applied"])
        })],
    }
}
