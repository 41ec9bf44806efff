//! C07: views whose definition changes between openings, and views whose map
//! functions fail.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::Arc;

use bonsaidb_core::connection::{AccessPolicy, Connection, LowLevelConnection, Sort, StorageConnection};
use bonsaidb_core::document::{BorrowedDocument, DocumentId, Emit, Header, Revision};
use bonsaidb_core::key::KeyEncoding;
use bonsaidb_core::permissions::Permissions;
use bonsaidb_core::schema::view::ViewUpdatePolicy;
use bonsaidb_core::schema::{Collection, CollectionName, MapReduce, Name, Qualified, ReduceResult, Schema, SchemaName, Schematic, SerializedView, View, ViewMapResult, ViewName, ViewSchema};
use bonsaidb_core::schema::view::map::{Mappings, ViewMappedValue};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_core::Error;
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::{Database, Storage};

use crate::engine::*;
use crate::fix::*;
use crate::{ensure, fail};

/// Documents are bytes; the first two matter.
#[derive(Debug, Clone, Collection)]
#[collection(name = "recs", authority = "vh", core = bonsaidb_core)]
struct Rec;

/// The definition of a view. It can be changed by opening the storage with
/// another one.
#[derive(Debug, Clone)]
struct Plan {
    name: &'static str,
    version: u64,
    policy: ViewUpdatePolicy,
    mapping: u8,
    /// 1: documents beginning with 3 can't be mapped, 2: mapping them panics.
    trouble: Arc<AtomicU8>,
}
#[derive(Debug, Clone)]
struct Shifting<const N: usize>(Plan);
/// Views are told apart by their type.
impl<const N: usize> View for Shifting<N> {
    type Collection = Rec;
    type Key = u32;
    type Value = u64;
    fn name(&self) -> Name {
        Name::new(VIEW_NAMES[N])
    }
}
impl<const N: usize> bonsaidb_core::schema::DefaultViewSerialization for Shifting<N> {}
impl<const N: usize> ViewSchema for Shifting<N> {
    type MappedKey<'doc> = u32;
    type View = Self;
    fn update_policy(&self) -> ViewUpdatePolicy {
        self.0.policy
    }
    fn version(&self) -> u64 {
        self.0.version
    }
}
impl Plan {
    /// What a document maps to.
    fn map(&self, id: u64, contents: &[u8]) -> Vec<(u32, u64)> {
        let a = u32::from(contents.first().copied().unwrap_or(0));
        let b = u64::from(contents.get(1).copied().unwrap_or(0));
        if self.policy == ViewUpdatePolicy::Unique {
            // never a conflict
            return vec![(id as u32 * 4 + u32::from(self.mapping), b)];
        }
        match self.mapping {
            0 => vec![(a, b)],
            1 => vec![(contents.len() as u32 % 5, 1), (10 + a, b)],
            2 if a % 2 == 0 => vec![],
            2 => vec![(a, id)],
            _ => vec![(7, b)],
        }
    }
}
impl<const N: usize> MapReduce for Shifting<N> {
    fn map<'doc>(&self, doc: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        if doc.contents.first() == Some(&3) {
            match self.0.trouble.load(Ordering::SeqCst) {
                1 => return Err(bonsaidb_core::schema::view::Error::from(Error::other("vh", "can't be mapped")).into()),
                2 => panic!("EXPECTED: map panics"),
                _ => {}
            }
        }
        let id: u64 = doc.header.id.deserialize()?;
        let mut all = Mappings::none();
        for (k, v) in self.0.map(id, &doc.contents) {
            all = all.and(doc.header.emit_key_and_value(k, v)?);
        }
        Ok(all)
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _re: bool) -> ReduceResult<Self::View> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}
thread_local! {
    static PLANS: RefCell<Vec<Plan>> = const { RefCell::new(Vec::new()) };
}
#[derive(Debug)]
struct Shifty;
impl Schema for Shifty {
    fn schema_name() -> SchemaName {
        SchemaName::new("vh", "shifty")
    }
    fn define_collections(schema: &mut Schematic) -> Result<(), Error> {
        schema.define_collection::<Rec>()?;
        for p in PLANS.with(|p| p.borrow().clone()) {
            match p.name {
                "one" => schema.define_view(Shifting::<0>(p))?,
                "two" => schema.define_view(Shifting::<1>(p))?,
                _ => schema.define_view(Shifting::<2>(p))?,
            }
        }
        Ok(())
    }
}
fn open_with(path: &Path, plans: &[Plan], new: bool) -> Res<(Storage, Database)> {
    PLANS.with(|p| *p.borrow_mut() = plans.to_vec());
    let mut c = StorageConfiguration::default();
    c.workers.worker_count = 2;
    c.workers.parallelization = 2;
    c.path = Some(path.to_path_buf());
    c.authenticated_permissions = Permissions::default();
    let c = c.with_schema::<Shifty>().expect("HARNESS: schema");
    let storage = Storage::open(c).or_fail("opening storage")?;
    let db = if new { storage.create_database::<Shifty>("d", false).or_fail("create_database")? } else { storage.database::<Shifty>("d").or_fail("database")? };
    Ok((storage, db))
}
fn view_name(p: &Plan) -> ViewName {
    ViewName { collection: collection(), name: Name::new(p.name) }
}
fn collection() -> CollectionName {
    Rec::collection_name()
}
const VIEW_NAMES: [&str; 3] = ["one", "two", "three"];
const POLICIES: [ViewUpdatePolicy; 3] = [ViewUpdatePolicy::Lazy, ViewUpdatePolicy::Eager, ViewUpdatePolicy::Unique];

struct State {
    docs: BTreeMap<u64, Doc>,
}
impl State {
    fn entries(&self, p: &Plan) -> Vec<Entry> {
        let mut m: BTreeMap<Vec<u8>, Vec<(Header, Vec<u8>)>> = BTreeMap::new();
        for (id, d) in &self.docs {
            let h = Header { id: DocumentId::from_u64(*id), revision: d.rev };
            for (k, v) in p.map(*id, &d.contents) {
                let v = <Shifting<0> as SerializedView>::serialize(&v).expect("HARNESS: serialize");
                m.entry(k.as_ord_bytes().expect("HARNESS: key").to_vec()).or_default().push((h.clone(), v));
            }
        }
        m.into_iter().collect()
    }
    fn check(&self, s: &mut Source, db: &Database, plans: &[Plan], what: &str, ctx: &mut Ctx) -> Res {
        for p in plans {
            let want = self.entries(p);
            let what = format!("{what}: view {} version {} {:?} mapping {}", p.name, p.version, p.policy, p.mapping);
            if s.bool() {
                let got = db.query_by_name(&view_name(p), None, Sort::Ascending, None, AccessPolicy::UpdateBefore).or_fail(&what)?;
                check_mappings(&what, &got, &want, Sort::Ascending, None)?;
            } else {
                let got = db.reduce_grouped_by_name(&view_name(p), None, AccessPolicy::UpdateBefore).or_fail(&what)?;
                let got: Vec<(Vec<u8>, u64)> = got.into_iter().map(|m| Ok((m.key.to_vec(), <Shifting<0> as SerializedView>::deserialize(&m.value).or_fail("reduced value")?))).collect::<Res<_>>()?;
                let want: Vec<(Vec<u8>, u64)> = want.iter().map(|(k, m)| (k.clone(), m.iter().map(|(_, v)| <Shifting<0> as SerializedView>::deserialize(v).expect("HARNESS: value")).sum())).collect();
                ensure!(got == want, "{what}: reduced {}, recomputed {}", short(&got), short(&want));
            }
            if !want.is_empty() {
                ctx.count("view_reads_with_results");
            }
        }
        Ok(())
    }
    /// Writes some documents in one transaction.
    fn gen(&self, s: &mut Source) -> (Transaction, BTreeMap<u64, Doc>) {
        let mut t = Transaction::new();
        let mut docs = self.docs.clone();
        let bulk = s.chance(1, 40);
        let n = if bulk { 900 + s.draw(700) } else { 1 + s.draw(3) };
        for i in 0..n {
            let id = if bulk { 100 + i } else { s.draw(12) };
            if docs.contains_key(&id) && s.chance(1, 4) {
                let d = docs.remove(&id).expect("HARNESS: doc");
                t.push(Operation::delete(collection(), Header { id: DocumentId::from_u64(id), revision: d.rev }));
            } else {
                let contents = if bulk { vec![(i % 9) as u8, i as u8, 1] } else { (0..s.draw(4)).map(|_| s.draw(7) as u8).collect() };
                let rev = match docs.get(&id) {
                    Some(d) => d.rev.next_revision(&contents).unwrap_or(d.rev),
                    None => Revision::new(&contents),
                };
                t.push(Operation::overwrite(collection(), DocumentId::from_u64(id), contents.clone()));
                docs.insert(id, Doc { rev, contents });
            }
        }
        (t, docs)
    }
}
/// The same version of a view is never defined in different ways.
type Versions = BTreeMap<(&'static str, u64), (ViewUpdatePolicy, u8)>;
fn gen_plan(s: &mut Source, name: &'static str, trouble: &Arc<AtomicU8>, versions: &mut Versions) -> Plan {
    let version = if s.chance(1, 8) { s.interesting_u64(u64::MAX) } else { s.draw(3) };
    let (policy, mapping) = *versions.entry((name, version)).or_insert_with(|| (POLICIES[s.weighted(&[3, 2, 1])], s.draw(3) as u8));
    Plan { name, version, policy, mapping, trouble: trouble.clone() }
}

/// The definitions of views change between openings, together with their
/// versions.
fn upgrades(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let path = scratch.path("s");
    let calm = Arc::new(AtomicU8::new(0));
    let mut versions = Versions::new();
    let mut plans: Vec<Plan> = VIEW_NAMES.into_iter().take(1 + s.draw(2) as usize).map(|n| gen_plan(s, n, &calm, &mut versions)).collect();
    ctx.log(format!("{plans:?}"));
    let (storage, db) = open_with(&path, &plans, true)?;
    let mut open = Some((storage, db));
    let mut st = State { docs: BTreeMap::new() };
    for _ in 0..2 + s.draw(3) {
        {
            let (_, db) = open.as_ref().expect("HARNESS: open");
            for _ in 0..s.draw(5) {
                match s.weighted(&[5, 2, 1]) {
                    0 => {
                        let (t, docs) = st.gen(s);
                        ctx.log(format!("transaction of {}: {}", t.operations.len(), short(&t.operations)));
                        db.apply_transaction(t).or_fail("apply_transaction")?;
                        st.docs = docs;
                    }
                    1 => {
                        ctx.log("check");
                        st.check(s, db, &plans, "history", ctx)?;
                    }
                    _ => {
                        ctx.log("compact");
                        db.compact().or_fail("compact")?;
                    }
                }
            }
            if s.bool() {
                st.check(s, db, &plans, "before reopening", ctx)?;
            }
        }
        if st.docs.len() > 500 {
            // see the known finding of C03
            break;
        }
        open = None;
        for p in &mut plans {
            if s.chance(2, 3) {
                let old = p.version;
                *p = gen_plan(s, p.name, &calm, &mut versions);
                if p.version != old {
                    ctx.count("views_redefined");
                }
            }
        }
        ctx.log(format!("reopen as {plans:?}"));
        open = Some(open_with(&path, &plans, false)?);
        if s.bool() {
            st.check(s, &open.as_ref().expect("HARNESS: open").1, &plans, "reopened", ctx)?;
        }
    }
    if let Some((_, db)) = &open {
        st.check(s, db, &plans, "at the end", ctx)?;
    }
    if ctx.counters.contains_key("views_redefined") && ctx.counters.contains_key("view_reads_with_results") {
        ctx.nontrivial();
    }
    Ok(())
}

/// Waits for jobs of a view, so that none is left which failed.
fn settle(db: &Database, p: &Plan) {
    let _ = catch(|| db.query_by_name(&view_name(p), None, Sort::Ascending, None, AccessPolicy::UpdateBefore));
}
/// Map functions which fail or panic for some documents.
fn failing(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let path = scratch.path("s");
    let trouble = Arc::new(AtomicU8::new(0));
    let calm = Arc::new(AtomicU8::new(0));
    let mut plans = vec![gen_plan(s, "one", &trouble, &mut Versions::new())];
    if s.bool() {
        plans.push(gen_plan(s, "two", &calm, &mut Versions::new()));
    }
    ctx.log(format!("{plans:?}"));
    let (_storage, db) = open_with(&path, &plans, true)?;
    let mut st = State { docs: BTreeMap::new() };
    for _ in 0..3 + s.draw(10) {
        let mode = trouble.load(Ordering::SeqCst);
        match s.weighted(&[5, 4, 3]) {
            0 => {
                let (t, docs) = st.gen(s);
                ctx.log(format!("transaction of {}: {}", t.operations.len(), short(&t.operations)));
                match catch(|| db.apply_transaction(t)) {
                    Ok(Ok(_)) => st.docs = docs,
                    Ok(Err(e)) => {
                        ensure!(mode != 0 && plans[0].policy.is_eager(), "a transaction failed although documents can be mapped: {e:?}");
                        ctx.count("transactions_refused");
                    }
                    Err(p) => {
                        ensure!(mode == 2 && plans[0].policy.is_eager(), "a transaction panicked: {p}");
                        ctx.count("transactions_panicked");
                    }
                }
                // refused transactions have no effect
                let got = db.list_from_collection((..).into(), Sort::Ascending, None, &collection()).or_fail("list")?;
                let got: Vec<(u64, Vec<u8>)> = got.iter().map(|d| Ok((d.header.id.deserialize().or_fail("id")?, d.contents.to_vec()))).collect::<Res<_>>()?;
                let want: Vec<(u64, Vec<u8>)> = st.docs.iter().map(|(i, d)| (*i, d.contents.clone())).collect();
                ensure!(got == want, "documents {}, expected {}", short(&got), short(&want));
            }
            1 if mode == 0 => {
                ctx.log("check");
                st.check(s, &db, &plans, "history", ctx)?;
            }
            1 => {
                ctx.log("query in trouble");
                let policy = *s.pick(&[AccessPolicy::UpdateBefore, AccessPolicy::UpdateAfter, AccessPolicy::NoUpdate]);
                match catch(|| db.query_by_name(&view_name(&plans[0]), None, Sort::Ascending, None, policy)) {
                    // It may have been mapped before.
                    Ok(Ok(got)) => {
                        if matches!(policy, AccessPolicy::UpdateBefore) {
                            check_mappings("a view updated in trouble", &got, &st.entries(&plans[0]), Sort::Ascending, None)?;
                        }
                    }
                    Ok(Err(e)) => {
                        ctx.log(format!("{e:?}"));
                        ctx.count("queries_failed");
                    }
                    Err(p) => fail!("a query panicked: {p}"),
                }
                if plans.len() > 1 {
                    st.check(s, &db, &plans[1..], "beside a view in trouble", ctx)?;
                }
            }
            _ => {
                let m = s.draw(2) as u8;
                ctx.log(format!("trouble {m}"));
                settle(&db, &plans[0]);
                trouble.store(m, Ordering::SeqCst);
            }
        }
    }
    settle(&db, &plans[0]);
    trouble.store(0, Ordering::SeqCst);
    st.check(s, &db, &plans, "after the trouble", ctx)?;
    if ctx.counters.contains_key("queries_failed") || ctx.counters.contains_key("transactions_refused") {
        ctx.nontrivial();
    }
    Ok(())
}
pub fn sections() -> Vec<Section> {
    vec![section("upgrades", 500, 40_000, upgrades), section("failing", 600, 40_000, failing)]
}
