//! The typed collection interface against the documents it must leave (C26).
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::Mutex;

use bonsaidb::client::BlockingClient;
use bonsaidb::server::DefaultPermissions;
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{AccessPolicy, AsyncConnection, AsyncStorageConnection, Connection, LowLevelConnection, Range, RangeRef, Sort, StorageConnection};
use bonsaidb_core::document::{BorrowedDocument, CollectionDocument, CollectionHeader, Document, DocumentId, Emit, Header, OwnedDocument, OwnedDocuments, Revision};
use bonsaidb_core::key::{Key, KeyEncoding};
use bonsaidb_core::permissions::Permissions;
use bonsaidb_core::schema::{
    Collection, CollectionMapReduce, CollectionName, InsertError, NamedCollection, NamedReference, Qualified, ReduceResult, Schema, Schematic,
    SerializedCollection, SerializedView, View, ViewMapResult, ViewMappedValue, ViewSchema,
};
use bonsaidb_core::transaction::{Operation, OperationResult, Transaction};
use bonsaidb_core::Error;
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::{Database, Storage};
use serde::{Deserialize, Serialize};

use crate::concur::D;
use crate::denied::rt;
use crate::engine::*;
use crate::fix::{config, refusal, Doc, Docs, Refused};
use crate::remote::Remote;
use crate::{ensure, ensure_eq, fail};

// ---------- collections ----------

/// Ids by the database, pot.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Collection)]
#[collection(name = "auto", authority = "typed", core = bonsaidb_core)]
pub struct Auto {
    n: u32,
    s: String,
    opt: Option<Vec<u8>>,
    map: BTreeMap<String, i64>,
}
/// A field as the id.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Collection)]
#[collection(name = "nat", authority = "typed", primary_key = String, core = bonsaidb_core)]
pub struct Nat {
    #[natural_id]
    name: String,
    n: u32,
}
/// An id if one is known, else one by the database.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Collection)]
#[collection(name = "maybe", authority = "typed", natural_id = self.fixed, core = bonsaidb_core)]
pub struct Maybe {
    fixed: Option<u64>,
    n: u32,
}
/// A composite id, contents in bincode.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Pair {
    a: u32,
    b: String,
    n: u32,
}
impl Collection for Pair {
    type PrimaryKey = (u32, String);
    fn collection_name() -> CollectionName {
        CollectionName::new("typed", "pair")
    }
    fn define_views(_: &mut Schematic) -> Result<(), Error> {
        Ok(())
    }
}
pub struct Bincoded;
impl transmog::Format<'static, Pair> for Bincoded {
    type Error = Wrong;
    fn serialize_into<W: std::io::Write>(&self, value: &Pair, mut writer: W) -> Result<(), Wrong> {
        bincode::serialize_into(&mut writer, value).map_err(|e| Wrong(e.to_string()))
    }
}
impl transmog::OwnedDeserializer<Pair> for Bincoded {
    fn deserialize_from<R: std::io::Read>(&self, mut reader: R) -> Result<Pair, Wrong> {
        bincode::deserialize_from(&mut reader).map_err(|e| Wrong(e.to_string()))
    }
}
#[derive(Debug)]
pub struct Wrong(String);
impl std::fmt::Display for Wrong {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Wrong {}
impl From<std::io::Error> for Wrong {
    fn from(e: std::io::Error) -> Self {
        Wrong(e.to_string())
    }
}
impl SerializedCollection for Pair {
    type Contents = Pair;
    type Format = Bincoded;
    fn format() -> Bincoded {
        Bincoded
    }
    fn natural_id(contents: &Pair) -> Option<(u32, String)> {
        Some((contents.a, contents.b.clone()))
    }
}
/// Contents encoded as a key.
#[derive(Key, Clone, Debug, PartialEq, Default, Collection)]
#[key(core = bonsaidb_core)]
#[collection(name = "keyed", authority = "typed", primary_key = i32, serialization = Key, core = bonsaidb_core)]
pub struct Keyed {
    n: u32,
    s: String,
    flag: Option<bool>,
}
/// Found by name.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Collection)]
#[collection(name = "who", authority = "typed", views = [WhoByName], core = bonsaidb_core)]
pub struct Who {
    name: String,
    n: u32,
}
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Who, key = String, value = u32, name = "by-name", core = bonsaidb_core)]
#[view_schema(core = bonsaidb_core, policy = Unique)]
pub struct WhoByName;
impl CollectionMapReduce for WhoByName {
    fn map<'doc>(&self, doc: CollectionDocument<Who>) -> ViewMapResult<'doc, Self> {
        doc.header.emit_key_and_value(doc.contents.name, doc.contents.n)
    }
}
impl NamedCollection for Who {
    type ByNameView = WhoByName;
}
#[derive(Debug, Schema)]
#[schema(name = "typed", collections = [Auto, Nat, Maybe, Pair, Keyed, Who], core = bonsaidb_core)]
pub struct AllTyped;

pub trait Typed: SerializedCollection<Contents = Self> + Clone + Debug + PartialEq + Unpin + 'static
where
    Self::PrimaryKey: Clone + Debug + Unpin + PartialEq,
{
    fn gen(s: &mut Source) -> Self;
    fn gen_key(s: &mut Source) -> Self::PrimaryKey;
    fn touch(&mut self, by: u32);
    fn unique(&self) -> Option<&str> {
        None
    }
    /// Assigned keys depend on the key type only.
    const ASSIGNS: bool;
}
impl Typed for Auto {
    fn gen(s: &mut Source) -> Self {
        Auto { n: s.draw(5) as u32, s: s.string(8, 2), opt: if s.bool() { Some(s.bytes(6, 2)) } else { None }, map: (0..s.draw(2)).map(|i| (s.word(2), i as i64 - 1)).collect() }
    }
    fn gen_key(s: &mut Source) -> u64 {
        s.draw(9)
    }
    fn touch(&mut self, by: u32) {
        self.n += by;
    }
    const ASSIGNS: bool = true;
}
impl Typed for Nat {
    fn gen(s: &mut Source) -> Self {
        Nat { name: Self::gen_key(s), n: s.draw(5) as u32 }
    }
    fn gen_key(s: &mut Source) -> String {
        match s.draw(3) {
            0 => s.string(5, 2),
            1 => format!("p{}", s.word(2)),
            2 => format!("p{}", s.draw(3)),
            _ => ["", "p", "p\u{10ffff}", "q", "p\u{d7ff}x", "p\u{e000}", "\u{10ffff}"][s.below(7)].to_string(),
        }
    }
    fn touch(&mut self, by: u32) {
        self.n += by;
    }
    const ASSIGNS: bool = false;
}
impl Typed for Maybe {
    fn gen(s: &mut Source) -> Self {
        Maybe { fixed: if s.bool() { Some(s.draw(9)) } else { None }, n: s.draw(5) as u32 }
    }
    fn gen_key(s: &mut Source) -> u64 {
        s.draw(9)
    }
    fn touch(&mut self, by: u32) {
        self.n += by;
    }
    const ASSIGNS: bool = true;
}
impl Typed for Pair {
    fn gen(s: &mut Source) -> Self {
        let (a, b) = Self::gen_key(s);
        Pair { a, b, n: s.draw(5) as u32 }
    }
    fn gen_key(s: &mut Source) -> (u32, String) {
        ([0, 1, 2, 255, 256, u32::MAX][s.below(6)], if s.bool() { s.word(1) } else { s.string(3, 1) })
    }
    fn touch(&mut self, by: u32) {
        self.n += by;
    }
    const ASSIGNS: bool = false;
}
impl Typed for Keyed {
    fn gen(s: &mut Source) -> Self {
        Keyed { n: s.draw(5) as u32, s: s.string(6, 2), flag: [None, Some(false), Some(true)][s.below(3)] }
    }
    fn gen_key(s: &mut Source) -> i32 {
        // Only non-negative ids: the order of negative ones is a known finding (C01).
        [0, 1, 2, 7, 0x7fff, 300, 1 << 20][s.below(7)]
    }
    fn touch(&mut self, by: u32) {
        self.n += by;
    }
    const ASSIGNS: bool = true;
}
impl Typed for Who {
    fn gen(s: &mut Source) -> Self {
        Who { name: gen_name(s), n: s.draw(5) as u32 }
    }
    fn gen_key(s: &mut Source) -> u64 {
        s.draw(9)
    }
    fn touch(&mut self, by: u32) {
        self.n += by;
    }
    fn unique(&self) -> Option<&str> {
        Some(&self.name)
    }
    const ASSIGNS: bool = true;
}
fn gen_name(s: &mut Source) -> String {
    match s.weighted(&[6, 1, 1]) {
        0 => format!("w{}", s.draw(4)),
        1 => String::new(),
        _ => s.string(4, 2),
    }
}

// ---------- model ----------

fn did<K: for<'k> Key<'k>>(k: &K) -> DocumentId {
    DocumentId::new(k).expect("HARNESS: id")
}
struct M<T> {
    docs: Docs,
    _t: std::marker::PhantomData<T>,
}
impl<T: Typed> M<T>
where
    T::PrimaryKey: Clone + Debug + Unpin + PartialEq,
{
    fn clash(&self, id: &DocumentId, v: &T) -> bool {
        v.unique().map_or(false, |u| self.docs.iter().any(|(i, d)| i != id && T::deserialize(&d.contents).expect("HARNESS: contents").unique() == Some(u)))
    }
    fn insert(&mut self, id: DocumentId, v: &T) -> Result<Header, Refused> {
        if self.docs.contains_key(&id) {
            return Err(Refused::Conflict(id));
        }
        self.put(id, v, None)
    }
    fn put(&mut self, id: DocumentId, v: &T, old: Option<Doc>) -> Result<Header, Refused> {
        let contents = T::serialize(v).expect("HARNESS: serialize");
        let rev = match old {
            Some(d) if d.contents == contents => return Ok(Header { id, revision: d.rev }),
            Some(d) => Revision { id: d.rev.id + 1, sha256: Revision::new(&contents).sha256 },
            None => Revision::new(&contents),
        };
        if self.clash(&id, v) {
            return Err(Refused::Unique);
        }
        self.docs.insert(id.clone(), Doc { rev, contents });
        Ok(Header { id, revision: rev })
    }
    fn overwrite(&mut self, id: DocumentId, v: &T) -> Result<Header, Refused> {
        let old = self.docs.get(&id).cloned();
        self.put(id, v, old)
    }
    fn found(&self, h: &Header) -> Result<Doc, Refused> {
        match self.docs.get(&h.id) {
            None => Err(Refused::NotFound(h.id.clone())),
            Some(d) if d.rev != h.revision => Err(Refused::Conflict(h.id.clone())),
            Some(d) => Ok(d.clone()),
        }
    }
    fn update(&mut self, h: &Header, v: &T) -> Result<Header, Refused> {
        let old = self.found(h)?;
        self.put(h.id.clone(), v, Some(old))
    }
    fn delete(&mut self, h: &Header) -> Result<(), Refused> {
        self.found(h)?;
        self.docs.remove(&h.id);
        Ok(())
    }
    fn typed(&self, id: &DocumentId) -> Option<CollectionDocument<T>> {
        self.docs.get(id).map(|d| typed(id, d))
    }
}
fn typed<T: Typed>(id: &DocumentId, d: &Doc) -> CollectionDocument<T>
where
    T::PrimaryKey: Clone + Debug + Unpin + PartialEq,
{
    CollectionDocument { header: CollectionHeader { id: id.deserialize().expect("HARNESS: key"), revision: d.rev }, contents: T::deserialize(&d.contents).expect("HARNESS: contents") }
}
fn header<T: Typed>(d: &CollectionDocument<T>) -> Header
where
    T::PrimaryKey: Clone + Debug + Unpin + PartialEq,
{
    Header { id: did(&d.header.id), revision: d.header.revision }
}
fn refused(what: &str, e: &Error) -> Res<Refused> {
    refusal(e).ok_or_else(|| Failure::new(format!("{what} failed with {e:?}")))
}

// ---------- stage ----------

fn typed_config(path: &std::path::Path) -> StorageConfiguration {
    config(path).with_schema::<AllTyped>().expect("HARNESS: schema")
}
struct Stage {
    d: D,
    db: Database,
    _storage: Storage,
    _remote: Option<Remote>,
    _scratch: Scratch,
}
impl Stage {
    fn new(s: &mut Source, ctx: &mut Ctx) -> Res<Self> {
        let scratch = Scratch::new();
        let path = scratch.path("db");
        let kind = s.weighted(&[8, 5, 1, 1]);
        let (storage, remote) = if kind >= 2 {
            let quic = s.chance(1, 3);
            let r = Remote::start(typed_config(&path), DefaultPermissions::from(Permissions::allow_all()), quic, |c| c)?;
            (r.storage.clone(), Some(r))
        } else {
            (Storage::open(typed_config(&path)).or_fail("opening storage")?, None)
        };
        storage.create_database::<AllTyped>("main", false).or_fail("create_database")?;
        let db = storage.database::<AllTyped>("main").or_fail("database")?;
        let client = match &remote {
            Some(r) => Some(r.client(r.quic().is_some())?),
            None => None,
        };
        let d = match (kind, client) {
            (2, Some(c)) => D::Client(rt().block_on(c.database::<AllTyped>("main")).or_fail("database")?),
            (3, Some(c)) => D::BlockingClient(BlockingClient::from(c).database::<AllTyped>("main").or_fail("database")?),
            (1, _) => D::Async(db.clone().into_async_with_runtime(rt().handle().clone())),
            _ => D::Blocking(db.clone()),
        };
        ctx.log(format!("through {}", d.kind()));
        ctx.count(d.kind());
        Ok(Stage { d, db, _storage: storage, _remote: remote, _scratch: scratch })
    }
}
/// A blocking and an asynchronous expression, whichever fits the handle.
macro_rules! on2 {
    ($d:expr, $x:ident => $sync:expr, $async:expr) => {
        match $d {
            D::Blocking($x) => $sync,
            D::BlockingClient($x) => $sync,
            D::Async($x) => rt().block_on($async),
            D::Client($x) => rt().block_on($async),
        }
    };
}

/// What another writer does at some moment, through the low-level interface.
#[derive(Clone, Debug)]
enum Meddle<T> {
    Overwrite(DocumentId, T),
    Delete(DocumentId),
    Insert(T),
}
impl<T: Typed> Meddle<T>
where
    T::PrimaryKey: Clone + Debug + Unpin + PartialEq,
{
    fn apply(&self, db: &Database) {
        let name = T::collection_name();
        let op = match self {
            Meddle::Overwrite(id, v) => Operation::overwrite(name, id.clone(), T::serialize(v).expect("HARNESS: serialize")),
            Meddle::Insert(v) => Operation::insert(name, None, T::serialize(v).expect("HARNESS: serialize")),
            Meddle::Delete(id) => match db.get_from_collection(id.clone(), &name).expect("HARNESS: get") {
                Some(d) => Operation::delete(name, d.header),
                None => return,
            },
        };
        let mut t = Transaction::new();
        t.push(op);
        // (refused if the name is taken)
        if let Err(e) = db.apply_transaction(t) {
            assert!(matches!(e, Error::UniqueKeyViolation { .. }), "HARNESS: {e:?}");
        }
    }
    /// Inserts need the id they were given.
    fn simulate(&self, m: &mut M<T>, inserted: Option<&DocumentId>) {
        let _ = match self {
            Meddle::Overwrite(id, v) => m.overwrite(id.clone(), v).map(|_| ()),
            Meddle::Delete(id) => {
                m.docs.remove(id);
                Ok(())
            }
            Meddle::Insert(v) => match inserted {
                Some(id) => m.insert(id.clone(), v).map(|_| ()),
                None => Ok(()),
            },
        };
    }
}
fn gen_meddle<T: Typed>(s: &mut Source, id: &DocumentId, max: usize) -> Vec<Meddle<T>>
where
    T::PrimaryKey: Clone + Debug + Unpin + PartialEq,
{
    let n = s.weighted(&[4, 3, 2, 1]).min(max);
    (0..n).map(|_| if s.chance(1, 5) { Meddle::Delete(id.clone()) } else { Meddle::Overwrite(id.clone(), T::gen(s)) }).collect()
}

struct Run<'a, T: Typed>
where
    T::PrimaryKey: Clone + Debug + Unpin + PartialEq,
{
    st: &'a Stage,
    m: M<T>,
    held: Vec<CollectionDocument<T>>,
}

type PK<T> = <T as Collection>::PrimaryKey;

impl<'a, T: Typed> Run<'a, T>
where
    T::PrimaryKey: Clone + Debug + Unpin + PartialEq + for<'k> Key<'k> + KeyEncoding<T::PrimaryKey> + Borrow<T::PrimaryKey>,
{
    /// After `push` of `v` returned `got`.
    fn pushed(&mut self, v: &T, got: Result<CollectionDocument<T>, InsertError<T>>, ctx: &mut Ctx) -> Res {
        let natural = T::natural_id(v).map(|k| did(&k));
        match got {
            Ok(doc) => {
                let h = header(&doc);
                match &natural {
                    Some(id) => ensure_eq!(h.id, *id, "natural id of {v:?}"),
                    None => {
                        ensure!(!self.m.docs.contains_key(&h.id), "the id {:?} is taken", h.id);
                        ctx.count("ids_assigned");
                    }
                }
                ensure!(doc.contents == *v, "pushed {v:?}, returned {:?}", doc.contents);
                match self.m.insert(h.id.clone(), v) {
                    Ok(want) => ensure!(h == want, "push of {v:?} returned {h:?}, expected {want:?}"),
                    Err(e) => fail!("push of {v:?} succeeded, expected {e:?}"),
                }
                self.held.push(doc);
                ctx.count("pushed");
            }
            Err(e) => {
                ensure!(e.contents == *v, "the error of a push returns {:?}, pushed was {v:?}", e.contents);
                let got = refused("push", &e.error)?;
                match natural {
                    Some(id) => {
                        let want = self.m.insert(id, v);
                        ensure!(want.as_ref().err() == Some(&got), "push of {v:?} was refused with {got:?}, expected {want:?}");
                    }
                    None if !T::ASSIGNS => ensure!(got == Refused::NoNextId, "push of {v:?} was refused with {got:?}"),
                    None => {
                        // (an id no document has)
                        let free = DocumentId::try_from(&[255_u8; 40][..]).expect("HARNESS: id");
                        ensure!(got == Refused::Unique && self.m.clash(&free, v), "push of {v:?} was refused with {got:?}");
                    }
                }
                ctx.count("push_refused");
            }
        }
        Ok(())
    }
    fn wrote(&mut self, what: &str, v: &T, want: Result<Header, Refused>, got: Result<CollectionDocument<T>, InsertError<T>>, ctx: &mut Ctx) -> Res {
        match (got, want) {
            (Ok(doc), Ok(h)) => {
                ensure!(header(&doc) == h && doc.contents == *v, "{what} of {v:?} returned {doc:?}, expected {h:?}");
                self.held.push(doc);
                ctx.count(if what == "insert" { "inserted" } else { "overwritten" });
            }
            (Err(e), Err(want)) => {
                ensure!(e.contents == *v, "the error of {what} returns {:?}, written was {v:?}", e.contents);
                let got = refused(what, &e.error)?;
                ensure!(got == want, "{what} of {v:?} was refused with {got:?}, expected {want:?}");
                ctx.count("write_refused");
            }
            (Ok(d), Err(e)) => fail!("{what} returned {d:?}, expected {e:?}"),
            (Err(e), Ok(h)) => fail!("{what} failed with {:?}, expected {h:?}", e.error),
        }
        Ok(())
    }
    /// One operation in a transaction, its result as the typed call would have it.
    fn single(&self, t: Transaction, v: &T) -> Result<CollectionDocument<T>, InsertError<T>> {
        let r = on2!(&self.st.d, x => t.apply(x), t.apply_async(x));
        match r {
            Ok(r) => match r.into_iter().next() {
                Some(OperationResult::DocumentUpdated { header, .. }) => Ok(CollectionDocument { header: CollectionHeader::try_from(header).expect("HARNESS: header"), contents: v.clone() }),
                other => panic!("result {other:?} of a write"),
            },
            Err(error) => Err(InsertError { contents: v.clone(), error }),
        }
    }
    fn pick_held(&self, s: &mut Source) -> Option<usize> {
        if self.held.is_empty() {
            None
        } else if s.chance(2, 3) {
            // a recent one
            Some(self.held.len() - 1 - s.below(self.held.len().min(3)))
        } else {
            Some(s.below(self.held.len()))
        }
    }
    fn key(&self, s: &mut Source) -> PK<T> {
        let ids: Vec<&DocumentId> = self.m.docs.keys().collect();
        if !ids.is_empty() && s.chance(2, 3) {
            s.pick(&ids).deserialize().expect("HARNESS: key")
        } else {
            T::gen_key(s)
        }
    }
    fn same(&self, what: &str, got: &[CollectionDocument<T>], want: &[CollectionDocument<T>]) -> Res {
        ensure!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a == b), "{what}: {}, expected {}", short(&got), short(&want));
        Ok(())
    }

    fn step(&mut self, s: &mut Source, ctx: &mut Ctx) -> Res {
        let d = &self.st.d;
        match s.weighted(&[6, 3, 3, 5, 4, 3, 1, 3, 3, 2, 2]) {
            0 => {
                let v = T::gen(s);
                let how = s.below(4);
                ctx.log(format!("push ({how}) {v:?}"));
                let value = v.clone();
                let got = match how {
                    0 => on2!(d, x => T::push(value, x), T::push_async(value, x)),
                    1 => on2!(d, x => value.push_into(x), value.push_into_async(x)),
                    2 => {
                        let r = on2!(d, x => x.collection::<T>().push(&value), async { x.collection::<T>().push(&value).await });
                        r.map(|header| CollectionDocument { header, contents: value.clone() }).map_err(|error| InsertError { contents: value, error })
                    }
                    _ => {
                        let mut t = Transaction::new();
                        value.push_in_transaction(&mut t).or_fail("push_in_transaction")?;
                        self.single(t, &v)
                    }
                };
                self.pushed(&v, got, ctx)
            }
            1 => {
                let (k, v) = (self.key(s), T::gen(s));
                let how = s.below(4);
                ctx.log(format!("insert ({how}) {k:?} {v:?}"));
                let value = v.clone();
                let got = match how {
                    0 => on2!(d, x => T::insert(&k, value, x), T::insert_async(&k, value, x)),
                    1 => on2!(d, x => value.insert_into(&k, x), value.insert_into_async(&k, x)),
                    2 => {
                        let r = on2!(d, x => x.collection::<T>().insert(&k, &value), async { x.collection::<T>().insert(&k, &value).await });
                        r.map(|header| CollectionDocument { header, contents: value.clone() }).map_err(|error| InsertError { contents: value, error })
                    }
                    _ => {
                        let mut t = Transaction::new();
                        value.insert_in_transaction(&k, &mut t).or_fail("insert_in_transaction")?;
                        self.single(t, &v)
                    }
                };
                let want = self.m.insert(did(&k), &v);
                self.wrote("insert", &v, want, got, ctx)
            }
            2 => {
                let (k, v) = (self.key(s), T::gen(s));
                let how = s.below(4);
                ctx.log(format!("overwrite ({how}) {k:?} {v:?}"));
                let value = v.clone();
                let got = match how {
                    0 => on2!(d, x => T::overwrite(&k, value, x), T::overwrite_async(&k, value, x)),
                    1 => on2!(d, x => value.overwrite_into(&k, x), value.overwrite_into_async(&k, x)),
                    2 => {
                        // the document's own header does not matter
                        let mut doc = OwnedDocument { header: Header { id: did(&k), revision: Revision::new(b"") }, contents: Bytes::default() };
                        Document::<T>::set_contents(&mut doc, value.clone()).or_fail("set_contents")?;
                        let r = on2!(d, x => x.collection::<T>().overwrite(&mut doc), async { x.collection::<T>().overwrite(&mut doc).await });
                        match r {
                            Ok(()) => Ok(CollectionDocument::try_from(&doc).or_fail("try_from")?),
                            Err(error) => Err(InsertError { contents: value, error }),
                        }
                    }
                    _ => {
                        let mut t = Transaction::new();
                        value.overwrite_in_transaction(&k, &mut t).or_fail("overwrite_in_transaction")?;
                        self.single(t, &v)
                    }
                };
                let want = self.m.overwrite(did(&k), &v);
                self.wrote("overwrite", &v, want, got, ctx)
            }
            3 => {
                let Some(i) = self.pick_held(s) else { return Ok(()) };
                let before = self.held[i].clone();
                let mut doc = before.clone();
                if s.chance(4, 5) {
                    doc.contents = T::gen(s);
                }
                let how = s.below(3);
                ctx.log(format!("update ({how}) {before:?} to {:?}", doc.contents));
                let v = doc.contents.clone();
                let want = self.m.update(&header(&before), &v);
                let got = match how {
                    0 => on2!(d, x => doc.update(x), doc.update_async(x)),
                    1 => {
                        let mut low = doc.to_document().or_fail("to_document")?;
                        let r = on2!(d, x => x.collection::<T>().update(&mut low), async { x.collection::<T>().update(&mut low).await });
                        doc = CollectionDocument::try_from(&low).or_fail("try_from")?;
                        r
                    }
                    _ => {
                        let mut t = Transaction::new();
                        doc.update_in_transaction(&mut t).or_fail("update_in_transaction")?;
                        match self.single(t, &v) {
                            Ok(d) => {
                                doc = d;
                                Ok(())
                            }
                            Err(e) => Err(e.error),
                        }
                    }
                };
                match (got, want) {
                    (Ok(()), Ok(h)) => {
                        ensure!(header(&doc) == h && doc.contents == v, "update left {doc:?}, expected {h:?}");
                        self.held.push(doc);
                        ctx.count("updated");
                    }
                    (Err(e), Err(want)) => {
                        ensure_eq!(refused("update", &e)?, want, "update of {before:?}");
                        ensure!(doc.header == before.header && doc.contents == v, "a refused update left {doc:?}");
                        ctx.count("update_refused");
                    }
                    (got, want) => fail!("update of {before:?} to {v:?}: {got:?}, expected {want:?}"),
                }
                Ok(())
            }
            4 => self.modify(s, ctx),
            5 => {
                let Some(i) = self.pick_held(s) else { return Ok(()) };
                let doc = self.held[i].clone();
                let how = s.below(3);
                ctx.log(format!("delete ({how}) {doc:?}"));
                let got = match how {
                    0 => on2!(d, x => doc.delete(x), doc.delete_async(x)),
                    1 => {
                        let low = doc.to_document().or_fail("to_document")?;
                        on2!(d, x => x.collection::<T>().delete(&low), async { x.collection::<T>().delete(&low).await })
                    }
                    _ => {
                        let mut t = Transaction::new();
                        doc.delete_in_transaction(&mut t).or_fail("delete_in_transaction")?;
                        on2!(d, x => t.apply(x), t.apply_async(x)).map(|_| ())
                    }
                };
                match (got, self.m.delete(&header(&doc))) {
                    (Ok(()), Ok(())) => ctx.count("deleted"),
                    (Err(e), Err(want)) => ensure_eq!(refused("delete", &e)?, want, "delete of {doc:?}"),
                    (got, want) => fail!("delete of {doc:?}: {got:?}, expected {want:?}"),
                }
                Ok(())
            }
            6 => {
                let Some(i) = self.pick_held(s) else { return Ok(()) };
                let mut doc = self.held[i].clone();
                doc.contents = T::gen(s);
                ctx.log(format!("refresh {:?}", doc.header));
                let got = on2!(d, x => doc.refresh(x), doc.refresh_async(x));
                match (got, self.m.typed(&did(&self.held[i].header.id))) {
                    (Ok(()), Some(want)) => ensure!(doc == want, "refresh left {doc:?}, expected {want:?}"),
                    (Err(e), None) => ensure_eq!(refused("refresh", &e)?, Refused::NotFound(did(&self.held[i].header.id)), "refresh"),
                    (got, want) => fail!("refresh: {got:?}, expected {want:?}"),
                }
                Ok(())
            }
            7 => {
                let k = self.key(s);
                ctx.log(format!("get {k:?}"));
                let got = match s.below(2) {
                    0 => on2!(d, x => T::get(&k, x), T::get_async(&k, x)).or_fail("get")?,
                    _ => {
                        let low = on2!(d, x => x.collection::<T>().get(&k), async { x.collection::<T>().get(&k).await }).or_fail("get")?;
                        match &low {
                            None => None,
                            Some(l) => {
                                let c = CollectionDocument { header: CollectionHeader::try_from(l.header.clone()).or_fail("header")?, contents: T::document_contents(l).or_fail("document_contents")? };
                                let b = BorrowedDocument { header: l.header.clone(), contents: (&l.contents[..]).into() };
                                ensure!(T::document_contents(&b).or_fail("document_contents")? == c.contents, "a borrowed document has other contents");
                                ensure!(Document::<T>::bytes(&b).or_fail("bytes")? == l.contents[..], "bytes() of a borrowed document");
                                Some(c)
                            }
                        }
                    }
                };
                let want = self.m.typed(&did(&k));
                ensure!(got == want, "get {k:?}: {got:?}, expected {want:?}");
                if let Some(doc) = got {
                    self.codecs(&doc)?;
                    self.held.push(doc);
                    ctx.count("got");
                }
                let ks: Vec<PK<T>> = {
                    let mut v: Vec<PK<T>> = vec![];
                    for _ in 0..s.draw(4) {
                        let k = self.key(s);
                        if !v.contains(&k) {
                            v.push(k);
                        }
                    }
                    v
                };
                let mut got = on2!(d, x => T::get_multiple(&ks, x), T::get_multiple_async(&ks, x)).or_fail("get_multiple")?;
                got.sort_by_key(|d| did(&d.header.id));
                let mut ids: Vec<DocumentId> = ks.iter().map(did).collect();
                ids.sort();
                let want: Vec<_> = ids.iter().filter_map(|i| self.m.typed(i)).collect();
                self.same("get_multiple", &got, &want)
            }
            8 => self.list(s, ctx),
            9 => {
                // push_all: all or nothing
                let vs: Vec<T> = (0..s.draw(3)).map(|_| T::gen(s)).collect();
                self.push_all(vs, ctx)
            }
            _ => {
                // another writer
                let (k, v) = (self.key(s), T::gen(s));
                let m: Meddle<T> = if s.chance(1, 4) { Meddle::Delete(did(&k)) } else { Meddle::Overwrite(did(&k), v) };
                ctx.log(format!("low-level {m:?}"));
                m.apply(&self.st.db);
                m.simulate(&mut self.m, None);
                Ok(())
            }
        }
    }
    fn push_all(&mut self, vs: Vec<T>, ctx: &mut Ctx) -> Res {
        ctx.log(format!("several {vs:?}"));
        let mut t = Transaction::new();
        for v in &vs {
            v.push_in_transaction(&mut t).or_fail("push_in_transaction")?;
        }
        if vs.is_empty() {
            return Ok(());
        }
        let r = on2!(&self.st.d, x => t.apply(x), t.apply_async(x));
        match r {
            Ok(r) => {
                ensure!(r.len() == vs.len(), "{} results", r.len());
                for (v, r) in vs.iter().zip(r) {
                    let OperationResult::DocumentUpdated { header, .. } = r else { fail!("result {r:?}") };
                    let doc = CollectionDocument { header: CollectionHeader::try_from(header).or_fail("header")?, contents: v.clone() };
                    self.pushed(v, Ok(doc), ctx)?;
                }
            }
            Err(e) => {
                // the same must be refused by the model
                let got = refused("push", &e)?;
                let mut m = M { docs: self.m.docs.clone(), _t: std::marker::PhantomData };
                let mut free = 0_u64;
                for v in &vs {
                    let id = match T::natural_id(v) {
                        Some(k) => did(&k),
                        None => {
                            if !T::ASSIGNS {
                                ensure!(got == Refused::NoNextId, "refused with {got:?}");
                                return Ok(());
                            }
                            free += 1;
                            DocumentId::try_from(&[&[255_u8; 30][..], &free.to_be_bytes()].concat()[..]).expect("HARNESS: id")
                        }
                    };
                    match m.insert(id, v) {
                        Ok(_) => {}
                        Err(want) => {
                            // (an id given to an earlier one may be that of a later one)
                            if free == 0 || got == Refused::Unique {
                                ensure!(got == want, "refused with {got:?}, expected {want:?}");
                            }
                            return Ok(());
                        }
                    }
                }
                if free > 0 && matches!(got, Refused::Conflict(_)) {
                    return Ok(());
                }
                fail!("pushing {vs:?} was refused: {got:?}");
            }
        }
        Ok(())
    }
    fn codecs(&self, doc: &CollectionDocument<T>) -> Res {
        let low = doc.to_document().or_fail("to_document")?;
        let want = self.m.docs.get(&low.header.id);
        if let Some(w) = want {
            ensure!(low.header.revision != w.rev || low.contents[..] == w.contents[..], "to_document() has other bytes than the stored document");
        }
        let b = BorrowedDocument::try_from(doc).or_fail("BorrowedDocument")?;
        ensure!(b.header == low.header && b.contents[..] == low.contents[..], "a borrowed document differs");
        ensure!(CollectionDocument::<T>::try_from(&low).or_fail("try_from")? == *doc && CollectionDocument::<T>::try_from(&b).or_fail("try_from")? == *doc, "converting back changes {doc:?}");
        Ok(())
    }
    fn modify(&mut self, s: &mut Source, ctx: &mut Ctx) -> Res {
        let Some(i) = self.pick_held(s) else { return Ok(()) };
        let before = self.held[i].clone();
        let id = did(&before.header.id);
        let meddle: Vec<Meddle<T>> = gen_meddle(s, &id, 3);
        let by = 1 + s.draw(3) as u32;
        ctx.log(format!("modify {before:?} by {by}, meanwhile {meddle:?}"));
        // what must happen
        let mut sim = before.clone();
        let mut calls = 0_u32;
        let want = loop {
            if calls > 0 {
                match self.m.typed(&id) {
                    Some(d) => sim = d,
                    None => break Err(Refused::NotFound(id.clone())),
                }
            }
            sim.contents.touch(by);
            if let Some(m) = meddle.get(calls as usize) {
                m.simulate(&mut self.m, None);
            }
            calls += 1;
            match self.m.update(&header(&sim), &sim.contents) {
                Err(Refused::Conflict(_)) => {}
                Ok(h) => {
                    sim.header = CollectionHeader::try_from(h).or_fail("header")?;
                    break Ok(());
                }
                Err(e) => break Err(e),
            }
        };
        let mut doc = before.clone();
        let called = Mutex::new(0_u32);
        let db = &self.st.db;
        let modifier = |doc: &mut CollectionDocument<T>| {
            doc.contents.touch(by);
            let mut c = called.lock().expect("HARNESS: lock");
            if let Some(m) = meddle.get(*c as usize) {
                m.apply(db);
            }
            *c += 1;
            *c
        };
        let got = on2!(&self.st.d, x => doc.modify(x, modifier), doc.modify_async(x, modifier));
        let called = *called.lock().expect("HARNESS: lock");
        match (got, want) {
            (Ok(n), Ok(())) => {
                ensure!(n == called && called == calls, "modify called {called} times, returned {n}, expected {calls}");
                ensure!(doc == sim, "modify left {doc:?}, expected {sim:?}");
                self.held.push(doc);
                ctx.count("modified");
                if calls > 1 {
                    ctx.count("modified_again_after_a_conflict");
                    ctx.nontrivial();
                }
            }
            (Err(e), Err(want)) => {
                ensure_eq!(refused("modify", &e)?, want, "modify");
                ctx.count("modify_refused");
            }
            (got, want) => fail!("modify of {before:?}: {got:?}, expected {want:?} ({called} calls)"),
        }
        Ok(())
    }
    fn list(&mut self, s: &mut Source, ctx: &mut Ctx) -> Res {
        use bonsaidb_core::connection::Bound;
        let k = |s: &mut Source, me: &Self| me.key(s);
        let (a, b) = (k(s, self), k(s, self));
        let range: Range<PK<T>> = {
            let mut end = |s: &mut Source, k: &PK<T>| match s.draw(2) {
                0 => Bound::Unbounded,
                1 => Bound::Included(k.clone()),
                _ => Bound::Excluded(k.clone()),
            };
            Range { start: end(s, &a), end: end(s, &b) }
        };
        let raw = Range { start: range.start.clone().map(|k| did(&k)), end: range.end.clone().map(|k| did(&k)) };
        let mut want: Vec<CollectionDocument<T>> = self.m.docs.iter().filter(|(i, _)| crate::fix::contains(&raw, *i)).map(|(i, d)| typed(i, d)).collect();
        let n = want.len() as u64;
        let down = s.bool();
        let limit = if s.bool() { Some(s.draw(4) as u32) } else { None };
        ctx.log(format!("list {range:?} descending {down} limit {limit:?}"));
        if down {
            want.reverse();
        }
        if let Some(l) = limit {
            want.truncate(l as usize);
        }
        macro_rules! options {
            ($l:expr) => {{
                let mut l = $l;
                if down {
                    l = l.descending();
                } else if n % 2 == 0 {
                    l = l.ascending();
                }
                if let Some(x) = limit {
                    l = l.limit(x);
                }
                l
            }};
        }
        let got = on2!(&self.st.d, x => options!(T::list::<_, PK<T>, _>(RangeRef::owned(range.clone()), x)).query(), async { options!(T::list_async::<_, PK<T>, _>(RangeRef::owned(range.clone()), x)).await }).or_fail("list")?;
        self.same("list", &got, &want)?;
        let headers = on2!(&self.st.d, x => options!(T::list::<_, PK<T>, _>(RangeRef::owned(range.clone()), x)).headers(), async { options!(T::list_async::<_, PK<T>, _>(RangeRef::owned(range.clone()), x)).headers().await }).or_fail("headers")?;
        let want_h: Vec<Header> = want.iter().map(header).collect();
        ensure!(headers == want_h, "headers {}, expected {}", short(&headers), short(&want_h));
        let count = on2!(&self.st.d, x => T::list::<_, PK<T>, _>(RangeRef::owned(range.clone()), x).count(), async { T::list_async::<_, PK<T>, _>(RangeRef::owned(range.clone()), x).count().await }).or_fail("count")?;
        ensure_eq!(count, n, "count of {range:?}");
        let all = on2!(&self.st.d, x => T::all(x).query(), async { T::all_async(x).await }).or_fail("all")?;
        let want_all: Vec<CollectionDocument<T>> = self.m.docs.iter().map(|(i, d)| typed(i, d)).collect();
        self.same("all", &all, &want_all)?;
        if n > 1 {
            ctx.count("lists_of_several");
        }
        Ok(())
    }
    /// What is stored, byte by byte.
    fn stored(&self) -> Res {
        let docs = self.st.db.list_from_collection(Range::from(..), Sort::Ascending, None, &T::collection_name()).or_fail("list")?;
        crate::fix::check_docs("stored", &docs, self.m.docs.iter())?;
        let typed_docs: Vec<CollectionDocument<T>> = docs.collection_documents().or_fail("collection_documents")?;
        let want: Vec<CollectionDocument<T>> = self.m.docs.iter().map(|(i, d)| typed(i, d)).collect();
        self.same("stored", &typed_docs, &want)
    }
}

fn history<T: Typed>(st: &Stage, s: &mut Source, ctx: &mut Ctx, extra: &dyn Fn(&mut Run<'_, T>, &mut Source, &mut Ctx) -> Res<bool>) -> Res
where
    T::PrimaryKey: Clone + Debug + Unpin + PartialEq + for<'k> Key<'k> + KeyEncoding<T::PrimaryKey> + Borrow<T::PrimaryKey>,
{
    let mut run: Run<'_, T> = Run { st, m: M { docs: Docs::new(), _t: std::marker::PhantomData }, held: vec![] };
    let steps = 3 + s.draw(25) as usize;
    for step in 0..steps {
        if !s.more(30, step, steps) {
            break;
        }
        if !extra(&mut run, s, ctx)? {
            run.step(s, ctx)?;
        }
        run.stored()?;
        if run.held.len() > 30 {
            run.held.drain(..10);
        }
    }
    if run.m.docs.len() > 1 && run.held.len() > 2 {
        ctx.nontrivial();
    }
    Ok(())
}

// ---------- what only some collections have ----------

fn prefixes(run: &mut Run<'_, Nat>, s: &mut Source, ctx: &mut Ctx) -> Res<bool> {
    if !s.chance(1, 4) {
        return Ok(false);
    }
    let p = match s.draw(2) {
        0 => run.key(s).chars().take(1 + s.below(2)).collect(),
        _ => Nat::gen_key(s),
    };
    ctx.log(format!("list with prefix {p:?}"));
    let got = on2!(&run.st.d, x => Nat::list_with_prefix(p.as_str(), x).query(), async { let p = p.clone(); Nat::list_with_prefix_async(&p, x).await }).or_fail("list_with_prefix")?;
    let want: Vec<CollectionDocument<Nat>> = run.m.docs.iter().map(|(i, d)| typed(i, d)).filter(|d: &CollectionDocument<Nat>| d.header.id.starts_with(&p)).collect();
    run.same(&format!("prefix {p:?}"), &got, &want)?;
    if !want.is_empty() {
        ctx.count("prefix_lists");
    }
    Ok(true)
}
fn bulk<T: Typed>(run: &mut Run<'_, T>, s: &mut Source, ctx: &mut Ctx) -> Res<bool>
where
    T::PrimaryKey: Clone + Debug + Unpin + PartialEq + Default + for<'k> Key<'k> + KeyEncoding<T::PrimaryKey> + Borrow<T::PrimaryKey>,
{
    if !s.chance(1, 8) {
        return Ok(false);
    }
    let vs: Vec<T> = (0..s.draw(4)).map(|_| T::gen(s)).collect();
    ctx.log(format!("push_all {vs:?}"));
    let list = vs.clone();
    let got = on2!(&run.st.d, x => T::push_all(list, x), T::push_all_async(list, x));
    match got {
        Ok(docs) => {
            ensure!(docs.len() == vs.len(), "push_all of {} returned {}", vs.len(), docs.len());
            for (v, d) in vs.iter().zip(docs) {
                run.pushed(v, Ok(d), ctx)?;
            }
            ctx.count("pushed_all");
        }
        Err(e) => {
            // one of them, or two of the same, cannot be inserted
            let got = refused("push_all", &e)?;
            let natural: Vec<DocumentId> = vs.iter().filter_map(|v| T::natural_id(v).map(|k| did(&k))).collect();
            let taken = natural.iter().enumerate().any(|(i, n)| run.m.docs.contains_key(n) || natural[..i].contains(n));
            let names: Vec<&str> = vs.iter().filter_map(Typed::unique).collect();
            let free = DocumentId::try_from(&[255_u8; 40][..]).expect("HARNESS: id");
            let clash = vs.iter().any(|v| run.m.clash(&free, v)) || names.iter().enumerate().any(|(i, n)| names[..i].contains(n));
            match got {
                Refused::Conflict(id) => ensure!(taken || (natural.len() < vs.len() && natural.contains(&id)), "push_all of {vs:?} was refused for {id:?}"),
                Refused::Unique => ensure!(clash, "push_all of {vs:?} was refused as not unique"),
                Refused::NoNextId => ensure!(!T::ASSIGNS, "push_all: no next id"),
                other => fail!("push_all: {other:?}"),
            }
        }
    }
    Ok(true)
}

fn find(m: &M<Who>, name: &NamedReference<'static, u64>) -> Option<CollectionDocument<Who>> {
    match name {
        NamedReference::Id(id) => m.typed(id),
        NamedReference::Key(k) => m.typed(&did(k)),
        NamedReference::Name(n) => m.docs.iter().map(|(i, d)| typed::<Who>(i, d)).find(|d| d.contents.name == **n),
    }
}
fn named(run: &mut Run<'_, Who>, s: &mut Source, ctx: &mut Ctx) -> Res<bool> {
    if !s.chance(1, 2) {
        return bulk(run, s, ctx);
    }
    let name: NamedReference<'static, u64> = match s.weighted(&[4, 1, 1]) {
        0 => NamedReference::Name(gen_name(s).into()),
        1 => NamedReference::Key(run.key(s)),
        _ => NamedReference::Id(did(&run.key(s))),
    };
    let d = &run.st.d;
    match s.weighted(&[2, 1, 6]) {
        0 => {
            ctx.log(format!("load {name:?}"));
            let got = on2!(d, x => Who::load(&name, x), Who::load_async(&name, x)).or_fail("load")?;
            let want = find(&run.m, &name);
            ensure!(got == want, "load {name:?}: {got:?}, expected {want:?}");
            let id = on2!(d, x => name.id::<Who, _>(x), name.id_async::<Who, _>(x)).or_fail("id")?;
            match &name {
                NamedReference::Name(_) => ensure_eq!(id, want.as_ref().map(|w| w.header.id), "id of {name:?}"),
                NamedReference::Key(k) => ensure_eq!(id, Some(*k), "id of {name:?}"),
                NamedReference::Id(i) => ensure_eq!(id, Some(i.deserialize::<u64>().or_fail("id")?), "id of {name:?}"),
            }
            if let Some(doc) = want {
                let again = on2!(d, x => Who::load(&doc, x), Who::load_async(&doc, x)).or_fail("load")?;
                ensure!(again.as_ref() == Some(&doc), "load by document: {again:?}");
                let docs = on2!(d,
                    x => x.view::<WhoByName>().with_key(&doc.contents.name).query_with_collection_docs().map(|m| m.into_iter().map(|m| (m.key.clone(), *m.value, m.document.clone())).collect::<Vec<_>>()),
                    async { x.view::<WhoByName>().with_key(&doc.contents.name).query_with_collection_docs().await.map(|m| m.into_iter().map(|m| (m.key.clone(), *m.value, m.document.clone())).collect::<Vec<_>>()) }
                )
                .or_fail("query_with_collection_docs")?;
                let want = vec![(doc.contents.name.clone(), doc.contents.n, doc.clone())];
                ensure!(docs == want, "query_with_collection_docs: {docs:?}, expected {want:?}");
                run.held.push(doc);
            }
        }
        1 => {
            let NamedReference::Name(n) = &name else { return Ok(false) };
            ctx.log(format!("delete by name {n:?}"));
            let got = on2!(d, x => Who::delete_by_name(n, x), Who::delete_by_name_async(n, x)).or_fail("delete_by_name")?;
            let there = find(&run.m, &name);
            ensure_eq!(got, there.is_some(), "delete_by_name {n:?}");
            if let Some(doc) = there {
                run.m.docs.remove(&did(&doc.header.id));
            }
        }
        _ => return entry(run, s, ctx, name).map(|()| true),
    }
    Ok(true)
}
fn entry(run: &mut Run<'_, Who>, s: &mut Source, ctx: &mut Ctx, name: NamedReference<'static, u64>) -> Res {
    let existing = find(&run.m, &name);
    let update = s.chance(3, 4);
    let insert = if s.chance(3, 4) {
        Some(match &name {
            NamedReference::Name(n) if s.chance(3, 4) => Who { name: n.to_string(), n: s.draw(5) as u32 },
            _ => Who::gen(s),
        })
    } else {
        None
    };
    let retries = s.weighted(&[3, 2, 2, 1]);
    let by = 1 + s.draw(3) as u32;
    let rename = if s.chance(1, 6) { Some(gen_name(s)) } else { None };
    let meddle: Vec<Meddle<Who>> = match &existing {
        Some(d) if update => gen_meddle(s, &did(&d.header.id), 4),
        None if insert.is_some() && s.chance(1, 3) => vec![Meddle::Insert(if s.chance(2, 3) { insert.clone().expect("HARNESS: insert") } else { Who::gen(s) })],
        _ => vec![],
    };
    ctx.log(format!("entry {name:?}: update {update} by {by} {rename:?}, insert {insert:?}, retries {retries}, meanwhile {meddle:?}"));
    let change = |w: &mut Who| {
        w.touch(by);
        if let Some(r) = &rename {
            w.name = r.clone();
        }
    };
    // what must happen
    enum Want {
        Doc(CollectionDocument<Who>),
        Inserted(Who),
        Nothing,
        Err(Refused),
    }
    let mut updates = 0_usize;
    let want = match &existing {
        Some(doc) if update => {
            let mut sim = doc.clone();
            let id = did(&doc.header.id);
            let mut left = retries;
            loop {
                change(&mut sim.contents);
                if let Some(m) = meddle.get(updates) {
                    m.simulate(&mut run.m, None);
                }
                updates += 1;
                match run.m.update(&header(&sim), &sim.contents) {
                    Ok(h) => {
                        sim.header = CollectionHeader::try_from(h).or_fail("header")?;
                        break Want::Doc(sim);
                    }
                    Err(Refused::Conflict(c)) => {
                        if left == 0 {
                            break Want::Err(Refused::Conflict(c));
                        }
                        left -= 1;
                        match run.m.typed(&id) {
                            Some(d) => sim = d,
                            None => break Want::Nothing,
                        }
                    }
                    Err(e) => break Want::Err(e),
                }
            }
        }
        Some(doc) => Want::Doc(doc.clone()),
        None => match &insert {
            Some(v) => Want::Inserted(v.clone()),
            None => Want::Nothing,
        },
    };
    let calls = Mutex::new((0_usize, 0_usize));
    let db = &run.st.db;
    let new = insert.clone().unwrap_or_else(|| Who { name: String::new(), n: 0 });
    let on_update = |w: &mut Who| {
        change(w);
        let mut c = calls.lock().expect("HARNESS: lock");
        if let Some(m) = meddle.get(c.0) {
            m.apply(db);
        }
        c.0 += 1;
    };
    let on_insert = || {
        calls.lock().expect("HARNESS: lock").1 += 1;
        for m in &meddle {
            m.apply(db);
        }
        new.clone()
    };
    let got = match (update, insert.is_some()) {
        (true, true) => on2!(&run.st.d,
            x => Who::entry(name.clone(), x).update_with(on_update).or_insert_with(on_insert).retry_limit(retries).execute(),
            Who::entry_async(name.clone(), x).retry_limit(retries).update_with(on_update).or_insert_with(on_insert)),
        (true, false) => on2!(&run.st.d,
            x => Who::entry(name.clone(), x).retry_limit(retries).update_with(on_update).execute(),
            Who::entry_async(name.clone(), x).update_with(on_update).retry_limit(retries)),
        (false, true) => on2!(&run.st.d,
            x => Who::entry(name.clone(), x).or_insert_with(on_insert).execute(),
            Who::entry_async(name.clone(), x).or_insert_with(on_insert).retry_limit(retries)),
        (false, false) => on2!(&run.st.d, x => Who::entry(name.clone(), x).retry_limit(retries).execute(), Who::entry_async(name.clone(), x)),
    };
    let (updated, inserted) = *calls.lock().expect("HARNESS: lock");
    ensure_eq!(updated, updates, "calls of the update function");
    ensure_eq!(inserted, usize::from(matches!(want, Want::Inserted(_))), "calls of the insert function");
    if updates > 1 {
        ctx.count("entries_retried");
        ctx.nontrivial();
    }
    match (got, want) {
        (Ok(Some(doc)), Want::Doc(want)) => {
            ensure!(doc == want, "entry {name:?} returned {doc:?}, expected {want:?}");
            run.held.push(doc);
            ctx.count("entries_found");
        }
        (Ok(None), Want::Nothing) => ctx.count("entries_without_document"),
        (Err(e), Want::Err(want)) => {
            ensure_eq!(refused("entry", &e)?, want, "entry {name:?}");
            ctx.count("entries_refused");
        }
        (got, Want::Inserted(v)) => {
            // what the other writer inserted first
            for m in &meddle {
                if let Meddle::Insert(w) = m {
                    let ours = match &got {
                        Ok(Some(d)) => Some(did(&d.header.id)),
                        _ => None,
                    };
                    let docs = db.list_from_collection(Range::from(..), Sort::Ascending, None, &Who::collection_name()).or_fail("list")?;
                    let new: Vec<&DocumentId> = docs.iter().map(|d| &d.header.id).filter(|i| !run.m.docs.contains_key(*i) && Some(*i) != ours.as_ref()).collect();
                    let free = DocumentId::try_from(&[255_u8; 40][..]).expect("HARNESS: id");
                    if run.m.clash(&free, w) {
                        ensure!(new.is_empty(), "a refused insert left {new:?}");
                    } else {
                        ensure!(new.len() == 1, "one insert left {new:?}");
                        m.simulate(&mut run.m, Some(new[0]));
                    }
                }
            }
            let got = match got {
                Ok(Some(d)) => Ok(d),
                Ok(None) => fail!("entry {name:?} inserted nothing"),
                Err(error) => Err(InsertError { contents: v.clone(), error }),
            };
            run.pushed(&v, got, ctx)?;
            ctx.count("entries_inserted");
        }
        (got, want) => fail!(
            "entry {name:?}: {got:?}, expected {}",
            match want {
                Want::Doc(d) => format!("{d:?}"),
                Want::Nothing => "nothing".into(),
                Want::Err(e) => format!("{e:?}"),
                Want::Inserted(v) => format!("{v:?} inserted"),
            }
        ),
    }
    Ok(())
}

fn histories(s: &mut Source, ctx: &mut Ctx) -> Res {
    let st = Stage::new(s, ctx)?;
    match s.weighted(&[2, 3, 2, 2, 2, 6]) {
        0 => history::<Auto>(&st, s, ctx, &bulk::<Auto>),
        1 => history::<Nat>(&st, s, ctx, &prefixes),
        2 => history::<Maybe>(&st, s, ctx, &bulk::<Maybe>),
        3 => history::<Pair>(&st, s, ctx, &bulk::<Pair>),
        4 => history::<Keyed>(&st, s, ctx, &bulk::<Keyed>),
        _ => history::<Who>(&st, s, ctx, &named),
    }
}

// ---------- migrations ----------

mod v1 {
    use super::*;
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Collection)]
    #[collection(name = "person", authority = "typed", core = bonsaidb_core)]
    pub struct Person {
        pub name: String,
    }
}
mod v2 {
    use super::*;
    /// One name became two, with a field added.
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
    pub struct Person {
        pub first: String,
        pub last: String,
        #[serde(default)]
        pub visits: u32,
    }
    impl Collection for Person {
        type PrimaryKey = u64;
        fn collection_name() -> CollectionName {
            v1::Person::collection_name()
        }
        fn define_views(s: &mut Schematic) -> Result<(), Error> {
            s.define_view(ByLast)
        }
    }
    impl SerializedCollection for Person {
        type Contents = Person;
        type Format = Pot;
        fn format() -> Pot {
            Pot
        }
        fn deserialize(data: &[u8]) -> Result<Person, Error> {
            pot::from_slice(data).or_else(|_| {
                let old: v1::Person = pot::from_slice(data).map_err(|e| Error::other("person", e))?;
                Ok(migrate(&old))
            })
        }
    }
    pub fn migrate(old: &v1::Person) -> Person {
        let (first, last) = old.name.split_once(' ').unwrap_or((&old.name, ""));
        Person { first: first.to_string(), last: last.to_string(), visits: 1 }
    }
    pub struct Pot;
    impl transmog::Format<'static, Person> for Pot {
        type Error = Wrong;
        fn serialize_into<W: std::io::Write>(&self, value: &Person, mut writer: W) -> Result<(), Wrong> {
            writer.write_all(&pot::to_vec(value).map_err(|e| Wrong(e.to_string()))?).map_err(Wrong::from)
        }
    }
    impl transmog::OwnedDeserializer<Person> for Pot {
        fn deserialize_from<R: std::io::Read>(&self, mut reader: R) -> Result<Person, Wrong> {
            let mut b = vec![];
            reader.read_to_end(&mut b)?;
            pot::from_slice(&b).map_err(|e| Wrong(e.to_string()))
        }
    }
    #[derive(Debug, Clone, View, ViewSchema)]
    #[view(collection = Person, key = String, value = u32, name = "by-last", core = bonsaidb_core)]
    #[view_schema(core = bonsaidb_core)]
    pub struct ByLast;
    impl CollectionMapReduce for ByLast {
        fn map<'doc>(&self, doc: CollectionDocument<Person>) -> ViewMapResult<'doc, Self> {
            doc.header.emit_key_and_value(doc.contents.last, doc.contents.visits)
        }
        fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _re: bool) -> ReduceResult<Self::View> {
            Ok(m.iter().map(|m| m.value).sum())
        }
    }
}
#[derive(Debug, Schema)]
#[schema(name = "people", collections = [v1::Person], core = bonsaidb_core)]
struct People1;
#[derive(Debug, Schema)]
#[schema(name = "people", collections = [v2::Person], core = bonsaidb_core)]
struct People2;

fn migrations(s: &mut Source, ctx: &mut Ctx) -> Res {
    use v2::Person;
    let scratch = Scratch::new();
    let path = scratch.path("db");
    let mut docs: BTreeMap<u64, (Revision, Person)> = BTreeMap::new();
    {
        let storage = Storage::open(config(&path).with_schema::<People1>().or_fail("schema")?).or_fail("open")?;
        storage.create_database::<People1>("p", false).or_fail("create_database")?;
        let db = storage.database::<People1>("p").or_fail("database")?;
        for _ in 0..1 + s.draw(6) {
            let old = v1::Person { name: match s.draw(2) {
                0 => s.word(3),
                1 => format!("{} {}", s.word(2), s.word(1)),
                _ => s.string(6, 3),
            } };
            ctx.log(format!("{old:?}"));
            let doc = old.clone().push_into(&db).map_err(|e| e.error).or_fail("push")?;
            docs.insert(doc.header.id, (doc.header.revision, v2::migrate(&old)));
        }
    }
    let reopen = || -> Res<(Storage, Database)> {
        let storage = Storage::open(config(&path).with_schema::<People2>().or_fail("schema")?).or_fail("open")?;
        let db = storage.database::<People2>("p").or_fail("database")?;
        Ok((storage, db))
    };
    let (mut storage, mut db) = reopen()?;
    let max = 1 + s.draw(8) as usize;
    for step in 0..max {
        if !s.more(9, step, max) {
            break;
        }
        let ids: Vec<u64> = docs.keys().copied().collect();
        let id = *s.pick(&ids);
        match s.draw(4) {
            0 => {
                let mut doc = Person::get(&id, &db).or_fail("get")?.ok_or_else(|| Failure::new("the document is gone"))?;
                ensure_eq!(doc.contents, docs[&id].1, "document {id}");
                doc.contents.visits += 1;
                ctx.log(format!("update {id}"));
                doc.update(&db).or_fail("update")?;
                docs.insert(id, (doc.header.revision, doc.contents));
            }
            1 => {
                let mut doc = Person::get(&id, &db).or_fail("get")?.ok_or_else(|| Failure::new("the document is gone"))?;
                ctx.log(format!("modify {id}"));
                doc.modify(&db, |d| d.contents.visits += 10).or_fail("modify")?;
                ensure_eq!(doc.contents.visits, docs[&id].1.visits + 10, "document {id}");
                docs.insert(id, (doc.header.revision, doc.contents));
            }
            2 => {
                let p = Person { first: s.word(2), last: s.word(1), visits: s.draw(4) as u32 };
                ctx.log(format!("push {p:?}"));
                let doc = p.push_into(&db).map_err(|e| e.error).or_fail("push")?;
                docs.insert(doc.header.id, (doc.header.revision, doc.contents));
            }
            3 => {
                ctx.log("reopen");
                drop(db);
                drop(storage);
                (storage, db) = reopen()?;
            }
            _ => {}
        }
        let all = Person::all(&db).query().or_fail("all")?;
        let got: Vec<(u64, Revision, Person)> = all.into_iter().map(|d| (d.header.id, d.header.revision, d.contents)).collect();
        let want: Vec<(u64, Revision, Person)> = docs.iter().map(|(i, (r, p))| (*i, *r, p.clone())).collect();
        ensure!(got == want, "documents {}, expected {}", short(&got), short(&want));
        let entries = v2::ByLast::entries(&db).query_with_collection_docs().or_fail("query_with_collection_docs")?;
        let mut got: Vec<(String, u64, u32)> = vec![];
        for e in &entries {
            ensure_eq!(e.document.contents, docs[&e.document.header.id].1, "document of a mapping");
            got.push((e.key.clone(), e.document.header.id, *e.value));
        }
        got.sort();
        let mut want: Vec<(String, u64, u32)> = docs.iter().map(|(i, (_, p))| (p.last.clone(), *i, p.visits)).collect();
        want.sort();
        ensure!(got == want, "view {}, expected {}", short(&got), short(&want));
        let sum = v2::ByLast::entries(&db).reduce().or_fail("reduce")?;
        ensure_eq!(sum, docs.values().map(|d| d.1.visits).sum::<u32>(), "reduced");
        let low = db.collection::<Person>().get(&id).or_fail("get")?.ok_or_else(|| Failure::new("the document is gone"))?;
        ensure_eq!(Person::document_contents(&low).or_fail("document_contents")?, docs[&id].1, "document_contents");
    }
    ctx.nontrivial();
    let _ = (&storage, AccessPolicy::UpdateBefore);
    Ok(())
}

pub fn c26() -> Property {
    Property {
        id: "C26",
        level: "exploration",
        rule: "several documents were written and held, or a modification or an entry met another writer",
        assumptions: &[
            "An entry loaded by name keeps to that document: after a conflict it is loaded again by its id, even if it was renamed meanwhile.",
            "A failing modify may leave the in-memory document with the last attempted contents.",
        ],
        sections: vec![section("histories", 1_500, 80_000, histories).threads(8), section("migrations", 300, 15_000, migrations).threads(8)],
    }
}
