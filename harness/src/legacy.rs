//! C28: storages as earlier versions wrote them. The files are written with
//! nebari in the formats of those versions, then opened with this one.
use std::collections::BTreeMap;
use std::path::Path;

use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{Connection, StorageConnection};
use bonsaidb_core::document::{DocumentId, Header, Revision};
use bonsaidb_core::keyvalue::Timestamp;
use bonsaidb_core::schema::CollectionName;
use bonsaidb_core::transaction::{ChangedKey, Changes};
use nebari::io::any::{AnyFile, AnyFileManager};
use nebari::tree::{AnyTreeRoot, Root, Unversioned, Versioned};
use nebari::Roots;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::fix::*;
use crate::hist::*;
use crate::kv::{KEntry, KvKey};
use crate::{ensure, ensure_eq, fail};

// ---------- formats ----------

/// v0.1: bincode, ids were integers.
#[derive(Serialize)]
struct HeaderV1 {
    id: u64,
    revision: Revision,
}
#[derive(Serialize)]
struct DocumentV1<'a> {
    header: HeaderV1,
    contents: &'a [u8],
}
/// since v0.2: Pot.
#[derive(Serialize, Deserialize)]
struct DocumentV2 {
    header: Header,
    contents: Bytes,
}
#[derive(Serialize)]
enum ChangesWith<Id> {
    Documents(Vec<ChangedWith<Id>>),
    Keys(Vec<ChangedKey>),
}
#[derive(Serialize)]
struct ChangedWith<Id> {
    collection: CollectionName,
    id: Id,
    deleted: bool,
}
#[derive(Serialize)]
struct ViewVersion {
    internal_version: u8,
    schema_version: u64,
}
/// A key-value entry.
#[derive(Serialize)]
struct KvEntry {
    value: bonsaidb_core::keyvalue::Value,
    expiration: Option<Timestamp>,
    last_updated: Timestamp,
}

/// The versions whose formats are written. A storage may have been used by
/// several, one after the other.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Era {
    /// bincode documents with integer ids, Pot log entries with integer ids
    V01,
    /// Pot documents, Pot log entries with byte ids
    V02,
    /// the log entry format of now
    Now,
}
const ERAS: [Era; 3] = [Era::V01, Era::V02, Era::Now];

fn as_u64(id: &DocumentId) -> Option<u64> {
    <[u8; 8]>::try_from(&id[..]).ok().map(u64::from_be_bytes)
}
fn pot<T: Serialize>(v: &T) -> Vec<u8> {
    pot::to_vec(v).expect("HARNESS: pot")
}
fn document(era: Era, id: &DocumentId, d: &Doc) -> Vec<u8> {
    match (era, as_u64(id)) {
        (Era::V01, Some(id)) => bincode::serialize(&DocumentV1 { header: HeaderV1 { id, revision: d.rev }, contents: &d.contents }).expect("HARNESS: bincode"),
        _ => pot(&DocumentV2 { header: Header { id: id.clone(), revision: d.rev }, contents: Bytes::from(d.contents.clone()) }),
    }
}
fn changes(era: Era, entry: &LogEntry) -> Vec<u8> {
    match era {
        Era::V01 => pot(&ChangesWith::Documents(
            entry.iter().map(|(c, id, deleted)| ChangedWith { collection: c.name(), id: as_u64(id).expect("HARNESS: id"), deleted: *deleted }).collect(),
        )),
        Era::V02 => pot(&ChangesWith::Documents(
            entry.iter().map(|(c, id, deleted)| ChangedWith { collection: c.name(), id: Bytes::from(id.to_vec()), deleted: *deleted }).collect(),
        )),
        Era::Now => current(&Changes::Documents(documents(entry))),
    }
}
fn documents(entry: &LogEntry) -> bonsaidb_core::transaction::DocumentChanges {
    let mut collections: Vec<CollectionName> = vec![];
    let documents = entry
        .iter()
        .map(|(c, id, deleted)| {
            let at = collections.iter().position(|n| *n == c.name()).unwrap_or_else(|| {
                collections.push(c.name());
                collections.len() - 1
            });
            bonsaidb_core::transaction::ChangedDocument { collection: at as u16, id: id.clone(), deleted: *deleted }
        })
        .collect();
    bonsaidb_core::transaction::DocumentChanges { collections, documents }
}
#[derive(Debug, Clone, Copy)]
struct One;
impl transmog_versions::Versioned for One {
    fn version(&self) -> u64 {
        1
    }
}
fn current(c: &Changes) -> Vec<u8> {
    let mut out = vec![];
    transmog_versions::write_header(&One, &mut out).expect("HARNESS: header");
    out.extend(pot(c));
    out
}

// ---------- writing ----------

fn roots(path: &Path) -> Res<Roots<AnyFile>> {
    nebari::Config::new(path).file_manager(AnyFileManager::std()).open().map_err(|e| Failure::env(format!("opening {path:?}: {e}")))
}
fn ne<T>(r: Result<T, nebari::Error>) -> Res<T> {
    r.map_err(|e| Failure::env(format!("writing the old storage: {e}")))
}
struct Put {
    tree: String,
    versioned: bool,
    sets: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}
/// One transaction over several trees.
fn put(r: &Roots<AnyFile>, puts: &[Put], data: Option<Vec<u8>>) -> Res {
    fn boxed<R: Root>(r: &Roots<AnyFile>, name: &str) -> Res<Box<dyn AnyTreeRoot<AnyFile>>>
    where
        nebari::Tree<R, AnyFile>: AnyTreeRoot<AnyFile> + 'static,
        R: Default,
    {
        Ok(Box::new(ne(r.tree(R::tree(name.to_string())))?))
    }
    let trees = puts.iter().map(|p| if p.versioned { boxed::<Versioned>(r, &p.tree) } else { boxed::<Unversioned>(r, &p.tree) }).collect::<Res<Vec<_>>>()?;
    let mut tx = ne(r.transaction::<_, dyn AnyTreeRoot<AnyFile>>(&trees))?;
    for (i, p) in puts.iter().enumerate() {
        for (k, v) in &p.sets {
            match (p.versioned, v) {
                (true, Some(v)) => ne(tx.tree::<Versioned>(i).expect("HARNESS: tree").set(k.clone(), v.clone()))?,
                (true, None) => ne(tx.tree::<Versioned>(i).expect("HARNESS: tree").remove(k).map(|_| ()))?,
                (false, Some(v)) => ne(tx.tree::<Unversioned>(i).expect("HARNESS: tree").set(k.clone(), v.clone()))?,
                (false, None) => ne(tx.tree::<Unversioned>(i).expect("HARNESS: tree").remove(k).map(|_| ()))?,
            }
        }
    }
    if let Some(d) = data {
        ne(tx.entry_mut().set_data(d))?;
    }
    ne(tx.commit())
}
fn tree_of(c: Col) -> String {
    format!("collection.{:#}", c.name())
}

/// The views of the database as an earlier version left them: of an earlier
/// version, so that nothing in them can be relied on.
fn old_views(s: &mut Source, ctx: &mut Ctx, r: &Roots<AnyFile>, model: &Model) -> Res {
    for v in model.all_views().iter().copied() {
        if s.chance(1, 4) {
            continue; // never used
        }
        let name = v.name();
        let (what, version) = match s.draw(3) {
            0 => ("BE", 0u64.to_be_bytes().to_vec()),
            1 => ("BE of another definition", (1 + s.draw(3)).to_be_bytes().to_vec()),
            2 => ("Pot", pot(&ViewVersion { internal_version: s.draw(2) as u8, schema_version: 0 })),
            _ => ("Pot of another definition", pot(&ViewVersion { internal_version: s.draw(3) as u8, schema_version: 1 + s.draw(3) })),
        };
        ctx.log(format!("old view {v:?}: {what} {version:?}"));
        let mut entries = vec![];
        let mut map = vec![];
        let mut invalid = vec![];
        let mut omitted = vec![];
        for (id, d) in model.col(v.col()) {
            for (k, val) in v.map(&d.contents) {
                if s.bool() {
                    entries.push((k, Some(val)));
                }
            }
            match s.draw(3) {
                0 => map.push((id.to_vec(), Some(s.bytes(12, 6)))),
                1 => omitted.push((id.to_vec(), Some(vec![]))),
                2 => invalid.push((id.to_vec(), Some(vec![]))),
                _ => {}
            }
        }
        for _ in 0..s.draw(2) {
            entries.push((v.gen_key(s), Some(s.bytes(12, 6))));
            map.push((gen_id(s, v.col()).to_vec(), Some(s.bytes(12, 6))));
        }
        let mut puts = vec![
            Put { tree: format!("view-versions.{:#}", name.collection), versioned: false, sets: vec![(name.to_string().into_bytes(), Some(version))] },
            Put { tree: format!("view.{name:#}"), versioned: false, sets: entries },
            Put { tree: format!("view.{name:#}.document-map"), versioned: false, sets: map },
            Put { tree: format!("view.{name:#}.invalidated"), versioned: false, sets: invalid },
        ];
        if s.bool() {
            puts.push(Put { tree: format!("view.{name:#}.omitted"), versioned: false, sets: omitted });
        }
        put(r, &puts, None)?;
        ctx.count("old_views");
    }
    Ok(())
}

/// The list of databases as v0.1 wrote it.
fn old_admin(ctx: &mut Ctx, path: &Path) -> Res {
    let r = roots(&path.join("_admin"))?;
    let name = r.tree_names().map_err(|e| Failure::env(format!("tree names: {e}")))?.into_iter().find(|n| n.starts_with("collection.bonsaidb.databases"));
    let Some(name) = name else { fail!("HARNESS: no list of databases") };
    let tree = ne(r.tree(Versioned::tree(name.clone())))?;
    let docs = ne(tree.get_range(&(..)))?;
    let mut sets = vec![];
    for (k, v) in docs {
        let d: DocumentV2 = pot::from_slice(&v).expect("HARNESS: document of the list of databases");
        sets.push((k.to_vec(), Some(document(Era::V01, &d.header.id, &Doc { rev: d.header.revision, contents: d.contents.to_vec() }))));
    }
    ensure!(!sets.is_empty(), "HARNESS: empty list of databases");
    put(&r, &[Put { tree: name, versioned: true, sets }], None)?;
    let versions = "view-versions.bonsaidb.databases";
    let old = ne(ne(r.tree(Unversioned::tree(versions)))?.get_range(&(..)))?;
    let sets = old.into_iter().map(|(k, _)| (k.to_vec(), Some(0u64.to_be_bytes().to_vec()))).collect();
    put(&r, &[Put { tree: versions.into(), versioned: false, sets }], None)?;
    ctx.count("old_lists_of_databases");
    Ok(())
}

/// Replaces the storage by a copy without the files of its database.
fn emptied(w: &mut World) -> Res<std::path::PathBuf> {
    // lets the tasks begun by opening the database finish
    w.check_views("of the new database")?;
    w.storage.as_ref().expect("HARNESS: open").list_databases().or_fail("list_databases")?;
    w.close();
    // A task may still be at work in the first one.
    let copy = w.path.with_file_name("copy.bonsaidb");
    copy_dir(&w.path, &copy, "main").or_env("copying the new storage")?;
    w.path = copy;
    Ok(w.path.join("main"))
}
fn copy_dir(from: &Path, to: &Path, except: &str) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for f in std::fs::read_dir(from)? {
        let f = f?;
        if f.file_name() == *except {
            continue;
        }
        if f.file_type()?.is_dir() {
            copy_dir(&f.path(), &to.join(f.file_name()), "")?;
        } else {
            std::fs::copy(f.path(), to.join(f.file_name()))?;
        }
    }
    Ok(())
}

/// Only what a version could have written: integer ids in v0.1.
fn possible(era: Era, op: &Op) -> bool {
    era > Era::V01 || op.id().and_then(as_u64).is_some()
}

fn old_storage(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut w = World::new()?;
    let dir = emptied(&mut w)?;
    {
        let r = roots(&dir)?;
        let mut era = 0;
        for _ in 0..1 + s.draw(24) {
            era = (era + usize::from(s.chance(1, 6))).min(2);
            let e = ERAS[era];
            if s.chance(1, 8) {
                // a transaction of a view being updated
                put(&r, &[Put { tree: "view.x.y".into(), versioned: false, sets: vec![(vec![1], Some(vec![]))] }], None)?;
                continue;
            }
            if s.chance(1, 5) {
                kv_write(s, ctx, &r, &mut w, e)?;
                continue;
            }
            let mut next = w.model.clone();
            let mut entry = LogEntry::new();
            let mut shown = vec![];
            for _ in 0..1 + s.draw(3) {
                let op = gen_op(s, &next, &w.history);
                if !possible(e, &op) || matches!(op, Op::Check { .. } | Op::Insert { id: None, .. }) {
                    continue;
                }
                let mut after = next.clone();
                match after.apply(&op, None) {
                    Ok(Expect::Updated(h)) => {
                        entry.push((op.col(), h.id.clone(), false));
                        w.history.push((op.col(), h));
                    }
                    Ok(Expect::Deleted(id)) => entry.push((op.col(), id, true)),
                    _ => continue,
                }
                shown.push(op.show());
                next = after;
            }
            if entry.is_empty() {
                continue;
            }
            let data = changes(e, &entry);
            if data.len() > 700 {
                continue; // see the known finding of C03
            }
            let mut puts: BTreeMap<Col, Put> = BTreeMap::new();
            for (c, id, _) in &entry {
                let p = puts.entry(*c).or_insert_with(|| Put { tree: tree_of(*c), versioned: true, sets: vec![] });
                let now = next.col(*c).get(id).map(|d| document(e, id, d));
                p.sets.retain(|(k, _)| k[..] != id[..]);
                if now.is_some() || w.model.col(*c).contains_key(id) {
                    p.sets.push((id.to_vec(), now));
                }
            }
            ctx.log(format!("{e:?} wrote [{}]", shown.join("; ")));
            put(&r, &puts.into_values().collect::<Vec<_>>(), Some(data))?;
            w.model = next;
            w.note(entry);
            ctx.count(&format!("transactions_of_{e:?}"));
        }
        old_views(s, ctx, &r, &w.model)?;
    }
    if s.bool() {
        ctx.log("old list of databases");
        old_admin(ctx, &w.path)?;
    }
    w.reopen().map_err(|mut e| {
        e.msg = format!("opening the storage of an earlier version: {}", e.msg);
        e
    })?;
    if ctx.counters.contains_key("transactions_of_V01") && ctx.counters.contains_key("old_views") {
        ctx.nontrivial();
    }
    let names: Vec<String> = w.storage.as_ref().expect("HARNESS: open").list_databases().or_fail("list_databases")?.into_iter().map(|d| d.name).collect();
    ensure!(names.contains(&"main".to_string()), "the databases listed are {names:?}");
    if s.bool() {
        w.check_all("of the old storage")?;
        w.kv_check("of the old storage")?;
    }
    if s.bool() {
        w.check_log_at(s, ctx, true)?;
    }
    // Used before any of its views is read.
    for _ in 0..if s.bool() { 0 } else { 1 + s.draw(6) } {
        step(s, &mut w, &Mix { single: 12, multi: 6, list: 3, get: 3, view: 0, delete_docs: 0, reopen: 1, compact: 1, log: 2, bulk: 0, steps: 0, unique: true, kv: 3 }, ctx)?;
        ctx.count("steps_before_views_are_read");
    }
    // The views are rebuilt by the first reading which updates them.
    w.check_views("of the old storage")?;
    history_in(w, s, ctx, &Mix { single: 12, multi: 6, list: 3, get: 3, view: 10, delete_docs: 1, reopen: 2, compact: 1, log: 2, bulk: 0, steps: 14, unique: false, kv: 3 })
}
fn kv_write(s: &mut Source, ctx: &mut Ctx, r: &Roots<AnyFile>, w: &mut World, e: Era) -> Res {
    use bonsaidb_core::keyvalue::{Numeric, Value};
    let namespace = s.pick(&[None, Some("n"), Some("m"), Some("n/a")]).map(String::from);
    let key = s.pick(&crate::kv::KEYS).to_string();
    let at: KvKey = (namespace.clone(), key.clone());
    let full = format!("{}\0{key}", namespace.clone().unwrap_or_default()).into_bytes();
    let value = match s.draw(4) {
        0 if w.kv.keys.contains_key(&at) => None,
        1 => Some(Value::Numeric(Numeric::Integer(s.draw(20) as i64 - 10))),
        2 => Some(Value::Numeric(Numeric::UnsignedInteger(s.interesting_u64(u64::MAX)))),
        3 => Some(Value::Numeric(Numeric::Float(s.draw(10) as f64 / 4.0))),
        _ => Some(Value::Bytes(Bytes::from(pot(&s.string(8, 3))))),
    };
    ctx.log(format!("{e:?} wrote key {at:?} = {value:?}"));
    let changed = ChangedKey { namespace, key, deleted: value.is_none() };
    let data = if e == Era::Now { current(&Changes::Keys(vec![changed])) } else { pot(&ChangesWith::<u64>::Keys(vec![changed])) };
    let entry = value.clone().map(|value| bincode::serialize(&KvEntry { value, expiration: None, last_updated: Timestamp::now() }).expect("HARNESS: bincode"));
    put(r, &[Put { tree: "kv".into(), versioned: false, sets: vec![(full, entry)] }], Some(data))?;
    w.kv_events.entry(at.clone()).or_default().push(value.is_none());
    match value {
        Some(value) => {
            w.kv.keys.insert(at, KEntry { value, exp: None, loose: false });
        }
        None => {
            w.kv.keys.remove(&at);
        }
    }
    ctx.count("old_key_value_writes");
    Ok(())
}

// ---------- the transaction log ----------

/// A log of entries of any collection in any of the formats.
fn old_log(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut w = World::new()?;
    let dir = emptied(&mut w)?;
    type Listed = Vec<(CollectionName, DocumentId, bool)>;
    let mut want: Vec<Result<Listed, Vec<ChangedKey>>> = vec![];
    {
        let r = roots(&dir)?;
        for _ in 0..1 + s.draw(12) {
            let format = s.weighted(&[4, 4, 3, 2, 2]);
            let name = |s: &mut Source| {
                use bonsaidb_core::schema::Qualified;
                CollectionName::new(s.word(2), s.string(4, 2))
            };
            let names: Vec<CollectionName> = (0..1 + s.draw(2)).map(|_| name(s)).collect();
            let mut listed: Listed = vec![];
            for _ in 0..1 + s.draw(5) {
                let id = if format == 1 { DocumentId::try_from(&s.bytes(12, 4)[..]).expect("HARNESS: id") } else { DocumentId::from_u64(s.interesting_u64(u64::MAX)) };
                listed.push((s.pick(&names).clone(), id, s.bool()));
            }
            let keys: Vec<ChangedKey> = (0..1 + s.draw(4)).map(|_| ChangedKey { namespace: if s.bool() { Some(s.word(3)) } else { None }, key: s.string(6, 3), deleted: s.bool() }).collect();
            let ints = |l: &Listed| l.iter().map(|(c, id, d)| ChangedWith { collection: c.clone(), id: as_u64(id).expect("HARNESS: id"), deleted: *d }).collect::<Vec<_>>();
            let (data, is) = match format {
                0 => (pot(&ChangesWith::Documents(ints(&listed))), Ok(listed)),
                1 => (pot(&ChangesWith::Documents(listed.iter().map(|(c, id, d)| ChangedWith { collection: c.clone(), id: Bytes::from(id.to_vec()), deleted: *d }).collect())), Ok(listed)),
                2 => (bincode::serialize(&ints(&listed)).expect("HARNESS: bincode"), Ok(listed)),
                3 => (pot(&ChangesWith::<u64>::Keys(keys.clone())), Err(keys)),
                _ => (current(&Changes::Keys(keys.clone())), Err(keys)),
            };
            if data.len() > 900 {
                continue;
            }
            ctx.log(format!("format {format}: {is:?}"));
            ctx.count(["pot_integer_ids", "pot_byte_ids", "bincode", "pot_keys", "current_keys"][format]);
            put(&r, &[Put { tree: "t".into(), versioned: false, sets: vec![(vec![1], Some(vec![want.len() as u8]))] }], Some(data))?;
            want.push(is);
        }
    }
    w.reopen()?;
    let got = w.db().list_executed_transactions(None, Some(1000)).or_fail("list_executed_transactions of an old log")?;
    ensure_eq!(got.len(), want.len(), "number of transactions listed");
    for (g, want) in got.iter().zip(&want) {
        match (&g.changes, want) {
            (Changes::Documents(d), Ok(l)) => {
                let mine: Listed = d.iter().map(|(c, d)| (c.clone(), d.id.clone(), d.deleted)).collect();
                ensure!(mine == *l, "transaction {} is listed as {}, it was {}", g.id, short(&mine), short(l));
                ctx.add("old_changes_compared", l.len() as u64);
            }
            (Changes::Keys(k), Err(l)) => ensure!(format!("{k:?}") == format!("{l:?}"), "transaction {} is listed as {k:?}, it was {l:?}", g.id),
            (a, b) => fail!("transaction {} is listed as {}, it was {}", g.id, short(a), short(b)),
        }
    }
    if want.len() > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

// ---------- keys ----------

/// A length as it precedes fields without a fixed length: the first four bits
/// are the number of further bytes, the others the number in big-endian order.
fn length(n: usize) -> Vec<u8> {
    let n = n as u64;
    let more = (0..8).find(|more| n >> (4 + 8 * more) == 0).expect("HARNESS: length");
    let mut out = n.to_be_bytes()[7 - more..].to_vec();
    out[0] |= (more as u8) << 4;
    out
}
fn field(bytes: &[u8]) -> Vec<u8> {
    let mut out = length(bytes.len());
    out.extend(bytes);
    out
}
/// The keys of earlier versions, by the types which preserve them.
#[allow(deprecated)]
fn old_keys(s: &mut Source, ctx: &mut Ctx) -> Res {
    use bonsaidb_core::key::{ByteSource, Key, KeyEncoding, OptionKeyV1, TupleEncodingV1};
    fn text(s: &mut Source) -> String {
        match s.weighted(&[8, 2, 1]) {
            0 => s.string(6, 3),
            1 => "\0ab\u{10ffff}"[..].chars().cycle().take(s.range(12, 40) as usize).collect(),
            _ => "x".repeat(s.pick(&[15, 16, 255, 256, 4095, 4096, 5000]) + s.draw(1) as usize),
        }
    }
    fn same<'k, T: Key<'k> + KeyEncoding<T>, D: std::fmt::Debug + PartialEq>(value: &'k T, want: &[u8], shown: D, read: fn(T) -> D) -> Res {
        let bytes = KeyEncoding::<T>::as_ord_bytes(value).or_fail(format!("encoding {}", short(&shown)))?;
        ensure!(bytes[..] == *want, "{} is encoded as {}, earlier versions as {}", short(&shown), short(&bytes), short(&want));
        let back = T::from_ord_bytes(ByteSource::Owned(want.to_vec())).or_fail(format!("decoding {}", short(&shown)))?;
        let back = read(back);
        ensure!(back == shown, "{} is decoded as {}", short(&shown), short(&back));
        Ok(())
    }
    let (a, b) = (text(s), text(s));
    let (n, m, k) = (s.interesting_u64(u64::from(u32::MAX)) as u32, s.interesting_u64(u64::MAX), s.draw(255) as u8);
    ctx.log(format!("{a:?} {b:?} {n} {m} {k}"));
    let cat = |parts: &[&[u8]]| parts.concat();
    let (fa, fb) = (field(a.as_bytes()), field(b.as_bytes()));
    let (bn, bm, bk) = (n.to_be_bytes(), m.to_be_bytes(), [k]);
    if a.len() >= 16 || b.len() >= 16 || (!a.is_empty() && a != b) {
        ctx.nontrivial();
    }
    same(&TupleEncodingV1((a.clone(),)), &fa, (a.clone(),), |t| t.0)?;
    same(&TupleEncodingV1((m,)), &bm, (m,), |t| t.0)?;
    same(&TupleEncodingV1((a.clone(), n)), &cat(&[&fa, &bn]), (a.clone(), n), |t| t.0)?;
    same(&TupleEncodingV1((m, a.clone())), &cat(&[&bm, &fa]), (m, a.clone()), |t| t.0)?;
    same(&TupleEncodingV1((a.clone(), b.clone())), &cat(&[&fa, &fb]), (a.clone(), b.clone()), |t| t.0)?;
    same(&TupleEncodingV1((a.clone(), k, b.clone())), &cat(&[&fa, &bk, &fb]), (a.clone(), k, b.clone()), |t| t.0)?;
    same(&TupleEncodingV1((k, a.clone(), m, b.clone())), &cat(&[&bk, &fa, &bm, &fb]), (k, a.clone(), m, b.clone()), |t| t.0)?;
    same(&TupleEncodingV1((k, a.clone(), m, b.clone(), n)), &cat(&[&bk, &fa, &bm, &fb, &bn]), (k, a.clone(), m, b.clone(), n), |t| t.0)?;
    same(
        &TupleEncodingV1((n, m, k, n, m, k, a.clone(), b.clone())),
        &cat(&[&bn, &bm, &bk, &bn, &bm, &bk, &fa, &fb]),
        (n, m, k, n, m, k, a.clone(), b.clone()),
        |t| t.0,
    )?;
    same(&OptionKeyV1(Some(n)), &bn, Some(n), |t| t.0)?;
    same(&OptionKeyV1::<u32>(None), &[], None, |t| t.0)?;
    same(&OptionKeyV1(Some(m)), &bm, Some(m), |t| t.0)?;
    if !a.is_empty() {
        same(&OptionKeyV1(Some(a.clone())), a.as_bytes(), Some(a.clone()), |t| t.0)?;
    }
    let next = OptionKeyV1(Some(n)).next_value().ok().map(|k| k.0);
    ensure!(next == n.checked_add(1).map(Some), "the key after {n} is {next:?}");
    Ok(())
}

pub fn c28() -> Property {
    Property {
        id: "C28",
        level: "exploration",
        rule: "a case is a storage written with nebari in the formats of earlier versions (documents, transaction log, view versions and views, key-value entries, list of databases), opened and then used by a random history compared with the model; non-trivial = it had transactions of v0.1 and old views, or an old log of several entries was read, or a key of a former type had fields of different contents or with lengths of several bytes",
        assumptions: &["the formats of v0.1 and v0.2 are those which the compatibility code of the tree describes; views of earlier versions may hold anything"],
        sections: vec![section("storage", 2_500, 80_000, old_storage), section("log", 1_500, 50_000, old_log), section("keys", 50_000, 2_000_000, old_keys)],
    }
}
