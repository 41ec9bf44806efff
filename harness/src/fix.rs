//! Shared fixture: schemas, document generators, the reference model of a
//! database, and view recomputation.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::OnceLock;

use bonsaidb_core::connection::{Bound, Range, SerializedQueryKey, Sort};
use bonsaidb_core::document::{BorrowedDocument, CollectionDocument, DocumentId, Emit, Header, OwnedDocument, Revision};
use bonsaidb_core::key::KeyEncoding;
use bonsaidb_core::permissions::Permissions;
use bonsaidb_core::schema::view::map::{Mappings, Serialized, ViewMappedValue};
use bonsaidb_core::schema::{
    Collection, CollectionMapReduce, CollectionName, MapReduce, ReduceResult, Schema, SerializedCollection, SerializedView, View,
    ViewMapResult, ViewName, ViewSchema,
};
use bonsaidb_core::Error;
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::Storage;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::{ensure, fail};

// ---------- schemas ----------

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default, Collection)]
#[collection(name = "items", authority = "vh", views = [ByTag, ByParent, ByN, ByPair, ByText], core = bonsaidb_core)]
pub struct Item {
    pub n: u32,
    pub parent: Option<u64>,
    pub tags: BTreeSet<String>,
    pub text: String,
}

/// Lazy, several mappings per document, reduced.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Item, key = String, value = u64, name = "by-tag", core = bonsaidb_core)]
#[view_schema(core = bonsaidb_core)]
pub struct ByTag;
impl CollectionMapReduce for ByTag {
    fn map<'doc>(&self, doc: CollectionDocument<Item>) -> ViewMapResult<'doc, Self> {
        doc.contents.tags.iter().map(|t| doc.header.emit_key_and_value(t.clone(), u64::from(doc.contents.n))).collect()
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _re: bool) -> ReduceResult<Self::View> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}
/// Lazy, one mapping for every document, counting.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Item, key = Option<u64>, value = u64, name = "by-parent", core = bonsaidb_core)]
#[view_schema(core = bonsaidb_core)]
pub struct ByParent;
impl CollectionMapReduce for ByParent {
    fn map<'doc>(&self, doc: CollectionDocument<Item>) -> ViewMapResult<'doc, Self> {
        doc.header.emit_key_and_value(doc.contents.parent, 1)
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _re: bool) -> ReduceResult<Self::View> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}
/// Eager, optional mapping; the reduction distinguishes reduce from rereduce.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Item, key = u32, value = (u64, u64), name = "by-n", core = bonsaidb_core)]
#[view_schema(core = bonsaidb_core, policy = Eager)]
pub struct ByN;
impl MapReduce for ByN {
    fn map<'doc>(&self, document: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let contents = Item::document_contents(document)?;
        if contents.n % 4 == 3 {
            Ok(Mappings::none())
        } else {
            document.header.emit_key_and_value(contents.n / 2, (0, u64::from(contents.n)))
        }
    }
    // (number of documents, sum)
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], re: bool) -> ReduceResult<Self::View> {
        Ok(if re {
            (m.iter().map(|m| m.value.0).sum(), m.iter().map(|m| m.value.1).sum())
        } else {
            (m.len() as u64, m.iter().map(|m| m.value.1).sum())
        })
    }
}
/// Lazy, composite key, no reduce.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Item, key = (String, u32), value = (), name = "by-pair", core = bonsaidb_core)]
#[view_schema(core = bonsaidb_core)]
pub struct ByPair;
impl CollectionMapReduce for ByPair {
    fn map<'doc>(&self, doc: CollectionDocument<Item>) -> ViewMapResult<'doc, Self> {
        doc.header.emit_key((doc.contents.text.clone(), doc.contents.n))
    }
}
/// Unique among non-empty texts.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Item, key = String, value = (), name = "by-text", core = bonsaidb_core)]
#[view_schema(core = bonsaidb_core, policy = Unique)]
pub struct ByText;
impl CollectionMapReduce for ByText {
    fn map<'doc>(&self, doc: CollectionDocument<Item>) -> ViewMapResult<'doc, Self> {
        if doc.contents.text.starts_with('u') {
            doc.header.emit_key(doc.contents.text.clone())
        } else {
            Ok(Mappings::none())
        }
    }
}

/// Natural ids.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Collection)]
#[collection(name = "named", authority = "vh", primary_key = String, core = bonsaidb_core)]
pub struct Named {
    #[natural_id]
    pub name: String,
    pub data: u32,
}

/// Raw bytes with a lazy view of their first byte.
#[derive(Debug, Collection)]
#[collection(name = "raw bytes", authority = "vh.x", primary_key = Vec<u8>, views = [RawByLen], serialization = None, core = bonsaidb_core)]
pub struct Raw;
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Raw, key = u32, value = u32, name = "by len", core = bonsaidb_core)]
#[view_schema(core = bonsaidb_core)]
pub struct RawByLen;
impl MapReduce for RawByLen {
    fn map<'doc>(&self, document: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        document.header.emit_key_and_value(document.contents.len() as u32, 1)
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _re: bool) -> ReduceResult<Self::View> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}

/// A collection with an encryption key of its own.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Collection)]
#[collection(name = "secret", authority = "vh", views = [SecretByTag, SecretByBody, SecretOnce], encryption_key = Some(bonsaidb_core::document::KeyId::Master), core = bonsaidb_core)]
pub struct Secret {
    pub tag: String,
    pub body: String,
}
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Secret, key = String, value = u64, name = "by-tag", core = bonsaidb_core)]
#[view_schema(core = bonsaidb_core)]
pub struct SecretByTag;
impl CollectionMapReduce for SecretByTag {
    fn map<'doc>(&self, doc: CollectionDocument<Secret>) -> ViewMapResult<'doc, Self> {
        doc.header.emit_key_and_value(doc.contents.tag.clone(), doc.contents.body.len() as u64)
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _re: bool) -> ReduceResult<Self::View> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}

#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Secret, key = String, name = "by-body", core = bonsaidb_core)]
#[view_schema(policy = Eager, core = bonsaidb_core)]
pub struct SecretByBody;
impl CollectionMapReduce for SecretByBody {
    fn map<'doc>(&self, doc: CollectionDocument<Secret>) -> ViewMapResult<'doc, Self> {
        doc.header.emit_key(doc.contents.body.clone())
    }
}
/// Not modelled: bodies which start like this are not generated.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Secret, key = String, name = "once", core = bonsaidb_core)]
#[view_schema(policy = Unique, core = bonsaidb_core)]
pub struct SecretOnce;
impl CollectionMapReduce for SecretOnce {
    fn map<'doc>(&self, doc: CollectionDocument<Secret>) -> ViewMapResult<'doc, Self> {
        if doc.contents.body.starts_with("once:") {
            doc.header.emit_key(doc.contents.body.clone())
        } else {
            Ok(Mappings::none())
        }
    }
}

#[derive(Debug, Schema)]
#[schema(name = "main", authority = "vh", collections = [Item, Named, Raw], core = bonsaidb_core)]
pub struct Main;

#[derive(Debug, Schema)]
#[schema(name = "vaulted", authority = "vh", collections = [Item, Named, Raw, Secret], core = bonsaidb_core)]
pub struct Vaulted;

#[derive(Debug, Schema)]
#[schema(name = "bare", authority = "vh", core = bonsaidb_core)]
pub struct Bare;

/// As `Main`, under a name with characters which need escaping.
#[derive(Debug, Schema)]
#[schema(name = "odd / näme.%", authority = "_vh..", collections = [Item, Named, Raw], core = bonsaidb_core)]
pub struct Odd;

// ---------- opening ----------

fn base_config() -> StorageConfiguration {
    static BASE: OnceLock<StorageConfiguration> = OnceLock::new();
    BASE.get_or_init(|| {
        let mut c = StorageConfiguration::default();
        c.workers.worker_count = 2;
        c.workers.parallelization = 2;
        // password hashing as cheap as possible
        let mut p = bonsaidb_local::argon2::ParamsBuilder::new();
        p.m_cost(64).t_cost(1).p_cost(1);
        c.argon.hashers = 1;
        c.argon.params = bonsaidb_local::config::ArgonParams::Params(p);
        c
    })
    .clone()
}
pub fn config(path: &Path) -> StorageConfiguration {
    let mut c = base_config();
    c.path = Some(path.to_path_buf());
    c.authenticated_permissions = Permissions::default();
    c.with_schema::<Main>().expect("HARNESS: schema")
}
pub fn open(path: &Path) -> Res<Storage> {
    Storage::open(config(path)).or_fail("opening storage")
}

// ---------- collections ----------

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Col {
    Item,
    Named,
    Raw,
    /// Only in models with `secret`.
    Secret,
}
pub const COLS: [Col; 4] = [Col::Item, Col::Named, Col::Raw, Col::Secret];
impl Col {
    pub fn name(self) -> CollectionName {
        match self {
            Col::Item => Item::collection_name(),
            Col::Named => Named::collection_name(),
            Col::Raw => Raw::collection_name(),
            Col::Secret => Secret::collection_name(),
        }
    }
    pub fn of(name: &CollectionName) -> Option<Col> {
        COLS.into_iter().find(|c| &c.name() == name)
    }
}
pub fn gen_col(s: &mut Source, m: &Model) -> Col {
    if m.secret {
        [Col::Item, Col::Named, Col::Raw, Col::Secret][s.weighted(&[4, 2, 3, 4])]
    } else {
        [Col::Item, Col::Named, Col::Raw][s.weighted(&[6, 2, 3])]
    }
}
pub fn gen_item(s: &mut Source) -> Item {
    Item {
        n: s.draw(9) as u32,
        parent: if s.bool() { Some(s.draw(3)) } else { None },
        tags: (0..s.draw(3)).map(|_| s.word(2)).collect(),
        text: match s.weighted(&[6, 2, 1]) {
            0 => format!("t{}", s.draw(4)),
            1 => format!("u{}", s.draw(5)),
            _ => s.string(6, 3),
        },
    }
}
pub fn item_bytes(i: &Item) -> Vec<u8> {
    <Item as SerializedCollection>::serialize(i).expect("HARNESS: serialize")
}
pub fn gen_contents(s: &mut Source, c: Col) -> Vec<u8> {
    match c {
        Col::Item => item_bytes(&gen_item(s)),
        Col::Named => {
            let n = Named { name: s.word(3), data: s.draw(4) as u32 };
            <Named as SerializedCollection>::serialize(&n).expect("HARNESS: serialize")
        }
        Col::Secret => {
            let body = if s.chance(1, 4) { "long body ".repeat(s.draw(300) as usize) } else { s.string(12, 2) };
            <Secret as SerializedCollection>::serialize(&Secret { tag: s.word(2), body }).expect("HARNESS: serialize")
        }
        Col::Raw => match s.weighted(&[12, 3, 1]) {
            0 => s.bytes(10, 3),
            1 => vec![s.draw(2) as u8; s.draw(3000) as usize],
            _ => {
                let mut r = Rng::new(s.draw(99));
                (0..s.draw(20_000)).map(|_| r.next() as u8).collect()
            }
        },
    }
}
pub fn gen_id(s: &mut Source, c: Col) -> DocumentId {
    match c {
        Col::Item | Col::Secret => DocumentId::from_u64(if s.chance(1, 10) { s.interesting_u64(u64::MAX) } else { s.draw(12) }),
        Col::Named => DocumentId::try_from(s.word(3).as_bytes()).expect("HARNESS: id"),
        Col::Raw => {
            let v = if s.chance(1, 12) { vec![b'x'; s.draw(300) as usize] } else { s.bytes(3, 1) };
            DocumentId::try_from(&v[..]).expect("HARNESS: id")
        }
    }
}
pub fn gen_range(s: &mut Source, c: Col) -> Range<DocumentId> {
    let b = |s: &mut Source| match s.draw(2) {
        0 => Bound::Unbounded,
        1 => Bound::Included(gen_id(s, c)),
        _ => Bound::Excluded(gen_id(s, c)),
    };
    Range { start: b(s), end: b(s) }
}
pub fn contains<T: Ord>(r: &Range<T>, v: &T) -> bool {
    (match &r.start {
        Bound::Unbounded => true,
        Bound::Included(b) => v >= b,
        Bound::Excluded(b) => v > b,
    }) && (match &r.end {
        Bound::Unbounded => true,
        Bound::Included(b) => v <= b,
        Bound::Excluded(b) => v < b,
    })
}
/// Empty or inverted ranges.
pub fn inverted<T: Ord>(r: &Range<T>) -> bool {
    match (&r.start, &r.end) {
        (Bound::Unbounded, _) | (_, Bound::Unbounded) => false,
        (Bound::Included(a), Bound::Included(b)) => a > b,
        (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) => a >= b,
    }
}

// ---------- model ----------

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub rev: Revision,
    pub contents: Vec<u8>,
}
pub type Docs = BTreeMap<DocumentId, Doc>;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub cols: BTreeMap<Col, Docs>,
    /// The database has the schema `Vaulted`.
    pub secret: bool,
    /// The schema has no collections.
    pub bare: bool,
}

/// Every view of the fixture.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    Tag,
    Parent,
    N,
    Pair,
    Text,
    RawLen,
    SecretTag,
    SecretBody,
}
pub const VIEWS: [V; 8] = [V::Tag, V::Parent, V::N, V::Pair, V::Text, V::RawLen, V::SecretTag, V::SecretBody];
impl V {
    pub fn name(self) -> ViewName {
        match self {
            V::Tag => View::view_name(&ByTag),
            V::Parent => View::view_name(&ByParent),
            V::N => View::view_name(&ByN),
            V::Pair => View::view_name(&ByPair),
            V::Text => View::view_name(&ByText),
            V::RawLen => View::view_name(&RawByLen),
            V::SecretTag => View::view_name(&SecretByTag),
            V::SecretBody => View::view_name(&SecretByBody),
        }
    }
    pub fn col(self) -> Col {
        match self {
            V::RawLen => Col::Raw,
            V::SecretTag | V::SecretBody => Col::Secret,
            _ => Col::Item,
        }
    }
    pub fn reduces(self) -> bool {
        !matches!(self, V::Pair | V::Text | V::SecretBody)
    }
    pub fn lazy(self) -> bool {
        !matches!(self, V::N | V::Text | V::SecretBody)
    }
    pub fn gen_key(self, s: &mut Source) -> Vec<u8> {
        let k = |k: Result<std::borrow::Cow<'_, [u8]>, String>| k.expect("HARNESS: key").into_owned();
        let e = |e: &dyn std::fmt::Display| e.to_string();
        match self {
            V::Tag | V::SecretTag | V::SecretBody => k(s.word(2).as_ord_bytes().map_err(|x| e(&x))),
            V::Parent => k((if s.bool() { Some(s.draw(4)) } else { None }).as_ord_bytes().map_err(|x| e(&x))),
            V::N => k((s.draw(5) as u32).as_ord_bytes().map_err(|x| e(&x))),
            V::Pair => k((gen_item(s).text, s.draw(10) as u32).as_ord_bytes().map_err(|x| e(&x))),
            V::Text => k(format!("u{}", s.draw(6)).as_ord_bytes().map_err(|x| e(&x))),
            V::RawLen => k((s.draw(6) as u32).as_ord_bytes().map_err(|x| e(&x))),
        }
    }
    /// What the view's map function emits for a document: (key, value) bytes.
    pub fn map(self, contents: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
        if self == V::RawLen {
            let n = contents.len() as u32;
            return vec![(n.to_be_bytes().to_vec(), ser::<RawByLen>(&1))];
        }
        if self == V::SecretTag {
            let i = <Secret as SerializedCollection>::deserialize(contents).expect("HARNESS: secret");
            return vec![(i.tag.into_bytes(), ser::<SecretByTag>(&(i.body.len() as u64)))];
        }
        if self == V::SecretBody {
            let i = <Secret as SerializedCollection>::deserialize(contents).expect("HARNESS: secret");
            return vec![(i.body.into_bytes(), ser::<SecretByBody>(&()))];
        }
        let i = <Item as SerializedCollection>::deserialize(contents).expect("HARNESS: item");
        match self {
            V::Tag => i.tags.iter().map(|t| (t.clone().into_bytes(), ser::<ByTag>(&u64::from(i.n)))).collect(),
            V::Parent => vec![(i.parent.as_ord_bytes().expect("HARNESS: key").into_owned(), ser::<ByParent>(&1))],
            V::N if i.n % 4 == 3 => vec![],
            V::N => vec![((i.n / 2).to_be_bytes().to_vec(), ser::<ByN>(&(0, u64::from(i.n))))],
            V::Pair => vec![((i.text.clone(), i.n).as_ord_bytes().expect("HARNESS: key").into_owned(), ser::<ByPair>(&()))],
            V::Text if i.text.starts_with('u') => vec![(i.text.into_bytes(), ser::<ByText>(&()))],
            V::Text | V::RawLen | V::SecretTag | V::SecretBody => vec![],
        }
    }
    /// The reduced value of the mappings of one key, or rereduced over keys.
    pub fn reduce(self, mappings: &[Vec<u8>]) -> Vec<u8> {
        fn sum<W: SerializedView<Value = u64>>(m: &[Vec<u8>]) -> Vec<u8> {
            ser::<W>(&m.iter().map(|v| W::deserialize(v).expect("HARNESS: value")).sum())
        }
        match self {
            V::Tag => sum::<ByTag>(mappings),
            V::Parent => sum::<ByParent>(mappings),
            V::SecretTag => sum::<SecretByTag>(mappings),
            V::N => {
                let s = mappings.iter().map(|v| ByN::deserialize(v).expect("HARNESS: value").1).sum();
                ser::<ByN>(&(mappings.len() as u64, s))
            }
            V::RawLen => ser::<RawByLen>(&(mappings.len() as u32)),
            V::Pair | V::Text | V::SecretBody => unreachable!("HARNESS: no reduce"),
        }
    }
}
fn ser<W: SerializedView>(v: &W::Value) -> Vec<u8> {
    W::serialize(v).expect("HARNESS: value")
}

pub type Entry = (Vec<u8>, Vec<(Header, Vec<u8>)>);
/// One operation of a transaction, against the model.
#[derive(Clone, Debug)]
pub enum Op {
    Insert { col: Col, id: Option<DocumentId>, contents: Vec<u8> },
    Update { col: Col, header: Header, contents: Vec<u8> },
    Overwrite { col: Col, id: DocumentId, contents: Vec<u8> },
    Delete { col: Col, header: Header },
    Check { col: Col, id: DocumentId, rev: Option<Revision> },
}
impl Op {
    pub fn operation(&self) -> bonsaidb_core::transaction::Operation {
        use bonsaidb_core::transaction::{Command, Operation};
        match self.clone() {
            Op::Insert { col, id, contents } => Operation::insert(col.name(), id, contents),
            Op::Update { col, header, contents } => Operation::update(col.name(), header, contents),
            Op::Overwrite { col, id, contents } => Operation::overwrite(col.name(), id, contents),
            Op::Delete { col, header } => Operation::delete(col.name(), header),
            Op::Check { col, id, rev } => Operation { collection: col.name(), command: Command::Check { id, revision: rev } },
        }
    }
    pub fn col(&self) -> Col {
        match self {
            Op::Insert { col, .. } | Op::Update { col, .. } | Op::Overwrite { col, .. } | Op::Delete { col, .. } | Op::Check { col, .. } => *col,
        }
    }
    pub fn id(&self) -> Option<&DocumentId> {
        match self {
            Op::Insert { id, .. } => id.as_ref(),
            Op::Update { header, .. } | Op::Delete { header, .. } => Some(&header.id),
            Op::Overwrite { id, .. } | Op::Check { id, .. } => Some(id),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Op::Insert { col, id, contents } => format!("insert {col:?} {id:?} {}", show(*col, contents)),
            Op::Update { col, header, contents } => format!("update {col:?} {:?}@{} {}", header.id, header.revision.id, show(*col, contents)),
            Op::Overwrite { col, id, contents } => format!("overwrite {col:?} {id:?} {}", show(*col, contents)),
            Op::Delete { col, header } => format!("delete {col:?} {:?}@{}", header.id, header.revision.id),
            Op::Check { col, id, rev } => format!("check {col:?} {id:?} {:?}", rev.map(|r| r.id)),
        }
    }
}
pub fn show(col: Col, contents: &[u8]) -> String {
    match col {
        Col::Item => format!("{:?}", <Item as SerializedCollection>::deserialize(contents)),
        Col::Named => format!("{:?}", <Named as SerializedCollection>::deserialize(contents)),
        Col::Raw => short(&contents),
        Col::Secret => short(&<Secret as SerializedCollection>::deserialize(contents)),
    }
}

/// What an operation does: the expected result, or the kind of error.
#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    Updated(Header),
    /// Inserted under an id chosen by the database.
    Assigned,
    Deleted(DocumentId),
    Success,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Refused {
    Conflict(DocumentId),
    NotFound(DocumentId),
    Unique,
    NoNextId,
}
pub fn refusal(e: &Error) -> Option<Refused> {
    match e {
        Error::DocumentConflict(_, h) => Some(Refused::Conflict(h.id.clone())),
        Error::DocumentNotFound(_, id) => Some(Refused::NotFound((**id).clone())),
        Error::UniqueKeyViolation { .. } => Some(Refused::Unique),
        Error::DocumentPush(..) => Some(Refused::NoNextId),
        _ => None,
    }
}

impl Model {
    pub fn all_cols(&self) -> &'static [Col] {
        &COLS[..if self.bare { 0 } else if self.secret { 4 } else { 3 }]
    }
    pub fn all_views(&self) -> &'static [V] {
        &VIEWS[..if self.bare { 0 } else if self.secret { 8 } else { 6 }]
    }
    pub fn col(&self, c: Col) -> &Docs {
        static EMPTY: Docs = BTreeMap::new();
        self.cols.get(&c).unwrap_or(&EMPTY)
    }
    pub fn col_mut(&mut self, c: Col) -> &mut Docs {
        self.cols.entry(c).or_default()
    }
    pub fn header(&self, c: Col, id: &DocumentId) -> Option<Header> {
        self.col(c).get(id).map(|d| Header { id: id.clone(), revision: d.rev })
    }
    fn unique_clash(&self, col: Col, id: &DocumentId, contents: &[u8]) -> bool {
        col == Col::Item
            && V::Text
                .map(contents)
                .iter()
                .any(|(k, _)| self.col(Col::Item).iter().any(|(i, d)| i != id && V::Text.map(&d.contents).iter().any(|(k2, _)| k2 == k)))
    }
    /// Applies one operation. `assigned` is the id the database reported for
    /// an insert without one.
    pub fn apply(&mut self, op: &Op, assigned: Option<&DocumentId>) -> Result<Expect, Refused> {
        match op {
            Op::Insert { col, id, contents } => {
                let id = match (id, assigned) {
                    (Some(id), _) | (None, Some(id)) => id.clone(),
                    // unknown: evaluate only
                    (None, None) => return if self.unique_clash(*col, &DocumentId::default(), contents) { Err(Refused::Unique) } else { Ok(Expect::Assigned) },
                };
                if self.col(*col).contains_key(&id) {
                    return Err(Refused::Conflict(id));
                }
                if self.unique_clash(*col, &id, contents) {
                    return Err(Refused::Unique);
                }
                let rev = Revision::new(contents);
                self.col_mut(*col).insert(id.clone(), Doc { rev, contents: contents.clone() });
                Ok(Expect::Updated(Header { id, revision: rev }))
            }
            Op::Update { col, header, contents } => match self.col(*col).get(&header.id).cloned() {
                None => Err(Refused::NotFound(header.id.clone())),
                Some(d) if d.rev != header.revision => Err(Refused::Conflict(header.id.clone())),
                Some(d) => self.write(*col, &header.id, Some(d), contents),
            },
            Op::Overwrite { col, id, contents } => {
                let old = self.col(*col).get(id).cloned();
                self.write(*col, id, old, contents)
            }
            Op::Delete { col, header } => match self.col(*col).get(&header.id) {
                None => Err(Refused::NotFound(header.id.clone())),
                Some(d) if d.rev != header.revision => Err(Refused::Conflict(header.id.clone())),
                Some(_) => {
                    self.col_mut(*col).remove(&header.id);
                    Ok(Expect::Deleted(header.id.clone()))
                }
            },
            Op::Check { col, id, rev } => match (self.col(*col).get(id), rev) {
                (None, _) => Err(Refused::NotFound(id.clone())),
                (Some(d), Some(r)) if &d.rev != r => Err(Refused::Conflict(id.clone())),
                _ => Ok(Expect::Success),
            },
        }
    }
    fn write(&mut self, col: Col, id: &DocumentId, old: Option<Doc>, contents: &[u8]) -> Result<Expect, Refused> {
        let rev = match old {
            Some(d) if d.contents == contents => return Ok(Expect::Updated(Header { id: id.clone(), revision: d.rev })),
            Some(d) => Revision { id: d.rev.id + 1, sha256: Revision::new(contents).sha256 },
            None => Revision::new(contents),
        };
        if self.unique_clash(col, id, contents) {
            return Err(Refused::Unique);
        }
        self.col_mut(col).insert(id.clone(), Doc { rev, contents: contents.to_vec() });
        Ok(Expect::Updated(Header { id: id.clone(), revision: rev }))
    }
    /// The view recomputed from the documents: key -> mappings by source id.
    pub fn view(&self, v: V) -> BTreeMap<Vec<u8>, Vec<(Header, Vec<u8>)>> {
        let mut out: BTreeMap<Vec<u8>, Vec<(Header, Vec<u8>)>> = BTreeMap::new();
        for (id, d) in self.col(v.col()) {
            for (k, val) in v.map(&d.contents) {
                out.entry(k).or_default().push((Header { id: id.clone(), revision: d.rev }, val));
            }
        }
        out
    }
    pub fn selected(&self, v: V, key: &Option<SerializedQueryKey>) -> Vec<Entry> {
        let all = self.view(v).into_iter();
        match key {
            None => all.collect(),
            Some(SerializedQueryKey::Matches(k)) => all.filter(|(x, _)| x[..] == k[..]).collect(),
            Some(SerializedQueryKey::Range(r)) => all.filter(|(x, _)| contains(&r.clone().map(|b| b.to_vec()), x)).collect(),
            Some(SerializedQueryKey::Multiple(ks)) => all.filter(|(x, _)| ks.iter().any(|k| x[..] == k[..])).collect(),
        }
    }
}

/// Draws an operation that is likely to be meaningful in state `m`.
pub fn gen_op(s: &mut Source, m: &Model, history: &[(Col, Header)]) -> Op {
    let col = gen_col(s, m);
    gen_op_in(s, m, history, col)
}
pub fn gen_op_in(s: &mut Source, m: &Model, history: &[(Col, Header)], col: Col) -> Op {
    let existing: Vec<Header> = m.col(col).iter().map(|(id, d)| Header { id: id.clone(), revision: d.rev }).collect();
    // current header (mostly), a stale one, a made-up one
    let header = |s: &mut Source| -> Header {
        let stale: Vec<&Header> = history.iter().filter(|(c, _)| *c == col).map(|(_, h)| h).collect();
        match s.weighted(&[8, 2, 1, 1]) {
            0 if !existing.is_empty() => s.pick(&existing).clone(),
            1 if !stale.is_empty() => (*s.pick(&stale)).clone(),
            2 if !existing.is_empty() => {
                let mut h = s.pick(&existing).clone();
                if s.bool() {
                    h.revision.id = h.revision.id.wrapping_add(1);
                } else {
                    h.revision.sha256[s.below(32)] ^= 1 << s.draw(7);
                }
                h
            }
            _ => Header { id: gen_id(s, col), revision: Revision::new(b"x") },
        }
    };
    let some_id = |s: &mut Source| {
        if !existing.is_empty() && s.bool() {
            s.pick(&existing).id.clone()
        } else {
            gen_id(s, col)
        }
    };
    match s.weighted(&[10, 8, 4, 5, 2]) {
        0 => {
            // Named and raw keys have no "next" value for every id.
            let id = if matches!(col, Col::Item | Col::Secret) && s.bool() { None } else { Some(some_id(s)) };
            Op::Insert { col, id, contents: gen_contents(s, col) }
        }
        1 => {
            let h = header(s);
            let contents = same_or_new(s, m, col, &h.id);
            Op::Update { col, header: h, contents }
        }
        2 => {
            let id = some_id(s);
            let contents = same_or_new(s, m, col, &id);
            Op::Overwrite { col, id, contents }
        }
        3 => Op::Delete { col, header: header(s) },
        _ => {
            if s.bool() {
                let h = header(s);
                Op::Check { col, id: h.id, rev: Some(h.revision) }
            } else {
                Op::Check { col, id: some_id(s), rev: None }
            }
        }
    }
}
fn same_or_new(s: &mut Source, m: &Model, col: Col, id: &DocumentId) -> Vec<u8> {
    match m.col(col).get(id) {
        Some(d) if s.chance(1, 6) => d.contents.clone(),
        _ => gen_contents(s, col),
    }
}

/// Compares a listing with the model.
pub fn check_docs<'a>(what: &str, got: &[OwnedDocument], want: impl Iterator<Item = (&'a DocumentId, &'a Doc)>) -> Res {
    let got: Vec<(DocumentId, Revision, &[u8])> = got.iter().map(|d| (d.header.id.clone(), d.header.revision, &d.contents[..])).collect();
    let want: Vec<(DocumentId, Revision, &[u8])> = want.map(|(i, d)| (i.clone(), d.rev, &d.contents[..])).collect();
    if got != want {
        let list = |v: &[(DocumentId, Revision, &[u8])]| -> Vec<(DocumentId, u32, usize)> { v.iter().map(|(i, r, c)| (i.clone(), r.id, c.len())).collect() };
        let extra: Vec<_> = list(&got).into_iter().filter(|g| !list(&want).contains(g)).collect();
        let missing: Vec<_> = list(&want).into_iter().filter(|g| !list(&got).contains(g)).collect();
        fail!("{what}: {} documents, expected {}; unexpected {}, missing {} (id, revision, length); got {}", got.len(), want.len(), short(&extra), short(&missing), short(&list(&got)));
    }
    Ok(())
}

/// Checks query results against the recomputed entries: keys in the requested
/// order, every mapping of each key once, and with a limit a prefix of that.
pub fn check_mappings(what: &str, got: &[Serialized], want: &[Entry], order: Sort, limit: Option<u32>) -> Res {
    let mut want: Vec<Entry> = want.to_vec();
    if matches!(order, Sort::Descending) {
        want.reverse();
    }
    let total: usize = want.iter().map(|e| e.1.len()).sum();
    let expect_len = limit.map_or(total, |l| total.min(l as usize));
    let shown: Vec<_> = got.iter().map(|m| (m.key.to_vec(), m.source.id.clone(), m.source.revision.id)).collect();
    ensure!(got.len() == expect_len, "{what}: {} mappings, expected {expect_len}: got {}, recomputed {}", got.len(), short(&shown), short(&show_entries(&want)));
    let mut i = 0;
    for (key, maps) in &want {
        if i == got.len() {
            break;
        }
        let n = maps.len().min(got.len() - i);
        let mut rest: Vec<&(Header, Vec<u8>)> = maps.iter().collect();
        for g in &got[i..i + n] {
            ensure!(g.key[..] == key[..], "{what}: mapping for key {:?} where {key:?} was expected; got {}, recomputed {}", g.key, short(&shown), short(&show_entries(&want)));
            match rest.iter().position(|(h, v)| *h == g.source && v[..] == g.value[..]) {
                Some(p) => {
                    rest.remove(p);
                }
                None => fail!("{what}: unexpected mapping {:?} value {:?} under key {key:?}; recomputed {}", g.source, g.value, short(&show_entries(&want))),
            }
        }
        i += n;
    }
    Ok(())
}
pub fn show_entries(e: &[Entry]) -> Vec<(Vec<u8>, Vec<(DocumentId, u32)>)> {
    e.iter().map(|(k, m)| (k.clone(), m.iter().map(|(h, _)| (h.id.clone(), h.revision.id)).collect())).collect()
}
