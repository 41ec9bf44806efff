//! C07: views of thousands of documents, changed thousands at once.
use std::collections::BTreeMap;

use bonsaidb_core::connection::{Connection, LowLevelConnection, Sort, StorageConnection};
use bonsaidb_core::document::{BorrowedDocument, DocumentId, Emit};
use bonsaidb_core::schema::view::map::ViewMappedValue;
use bonsaidb_core::schema::{Collection, MapReduce, ReduceResult, View, ViewMapResult, ViewSchema};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::{Database, Storage};

use crate::engine::*;
use crate::{ensure, ensure_eq};

/// Documents are four bytes, a number.
#[derive(Debug, Clone, Collection)]
#[collection(name = "bulk", authority = "vh", views = [ByNumber, ByFew], core = bonsaidb_core)]
struct Bulk;
fn number(d: &BorrowedDocument<'_>) -> u32 {
    d.contents.get(..4).map_or(0, |b| u32::from_be_bytes(b.try_into().expect("HARNESS: slice")))
}
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Bulk, key = u32, value = u64, name = "by-number", core = bonsaidb_core)]
#[view_schema(core = bonsaidb_core)]
struct ByNumber;
impl MapReduce for ByNumber {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key_and_value(number(d) / 8, u64::from(number(d)))
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _: bool) -> ReduceResult<Self::View> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}
/// Only some documents, under few keys.
#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Bulk, key = u32, value = u64, name = "by-few", core = bonsaidb_core)]
#[view_schema(core = bonsaidb_core)]
struct ByFew;
impl MapReduce for ByFew {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let n = number(d);
        if n % 31 == 0 {
            d.header.emit_key_and_value(n % 7, 1)
        } else {
            Ok(bonsaidb_core::schema::view::map::Mappings::none())
        }
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _: bool) -> ReduceResult<Self::View> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}

fn check(db: &Database, model: &BTreeMap<u64, u32>, ctx: &mut Ctx) -> Res {
    let mut by: BTreeMap<u32, BTreeMap<u64, u64>> = BTreeMap::new();
    let mut few: BTreeMap<u32, BTreeMap<u64, u64>> = BTreeMap::new();
    for (id, n) in model {
        by.entry(n / 8).or_default().insert(*id, u64::from(*n));
        if n % 31 == 0 {
            few.entry(n % 7).or_default().insert(*id, 1);
        }
    }
    let mut got: BTreeMap<u32, BTreeMap<u64, u64>> = BTreeMap::new();
    for m in db.view::<ByNumber>().query().or_fail("query")? {
        let id = m.source.id;
        ensure!(got.entry(m.key).or_default().insert(id, m.value).is_none(), "document {id} is mapped twice under {}", m.key);
    }
    compare("by-number", &got, &by)?;
    let mut got: BTreeMap<u32, BTreeMap<u64, u64>> = BTreeMap::new();
    for m in db.view::<ByFew>().query().or_fail("query")? {
        let id = m.source.id;
        ensure!(got.entry(m.key).or_default().insert(id, m.value).is_none(), "document {id} is mapped twice under {}", m.key);
    }
    compare("by-few", &got, &few)?;
    ensure_eq!(db.view::<ByNumber>().reduce().or_fail("reduce")?, model.values().map(|n| u64::from(*n)).sum::<u64>(), "reduce");
    let count = db.view::<ByFew>().reduce().or_fail("reduce")?;
    ensure_eq!(count, few.values().map(|m| m.len() as u64).sum::<u64>(), "reduce by-few");
    let groups = db.view::<ByNumber>().reduce_grouped().or_fail("reduce_grouped")?;
    let groups: BTreeMap<u32, u64> = groups.into_iter().map(|m| (m.key, m.value)).collect();
    let expected: BTreeMap<u32, u64> = by.iter().map(|(k, m)| (*k, m.values().sum())).collect();
    ensure!(groups == expected, "the grouped values of {} keys differ", expected.len());
    let ids: Vec<u64> = db
        .list_headers_from_collection(bonsaidb_core::connection::Range::from(..), Sort::Ascending, None, &Bulk::collection_name())
        .or_fail("list")?
        .into_iter()
        .map(|h| h.id.deserialize::<u64>().expect("HARNESS: id"))
        .collect();
    ensure!(ids.iter().eq(model.keys()), "{} documents are listed instead of {}", ids.len(), model.len());
    ctx.add("documents_compared", model.len() as u64);
    Ok(())
}
fn compare(view: &str, got: &BTreeMap<u32, BTreeMap<u64, u64>>, expected: &BTreeMap<u32, BTreeMap<u64, u64>>) -> Res {
    let n = |m: &BTreeMap<u32, BTreeMap<u64, u64>>| m.values().map(BTreeMap::len).sum::<usize>();
    let missing = expected.iter().flat_map(|(k, m)| m.iter().map(move |(id, v)| (*k, *id, *v))).find(|(k, id, v)| got.get(k).and_then(|m| m.get(id)) != Some(v));
    let extra = got.iter().flat_map(|(k, m)| m.iter().map(move |(id, v)| (*k, *id, *v))).find(|(k, id, v)| expected.get(k).and_then(|m| m.get(id)) != Some(v));
    ensure!(missing.is_none() && extra.is_none(), "{view}: {} mappings, expected {}; first missing {missing:?}, first unexpected {extra:?}", n(got), n(expected));
    Ok(())
}

/// The views are not read before `least` documents were changed.
fn run(s: &mut Source, ctx: &mut Ctx, total: u64, least: u64) -> Res {
    let scratch = Scratch::new();
    let storage = Storage::open(StorageConfiguration::new(scratch.path("big.bonsaidb")).with_schema::<Bulk>().or_fail("schema")?).or_fail("open")?;
    let db = storage.create_database::<Bulk>("d", false).or_fail("create_database")?;
    let mut model = BTreeMap::new();
    let mut r = Rng::new(s.fork_seed());
    let span = total * 3 / 2;
    let mut pending = 0_u64;
    let mut changes = 0_u64;
    while changes < total {
        let n = (1 + s.draw(total / 2)).min(total - changes);
        let base = s.draw(span);
        let kind = s.weighted(&[6, if changes < least { 0 } else { 2 }, 2]);
        ctx.log(format!("{} of {n} documents around {base}", ["write", "delete", "scattered write"][kind]));
        let mut tx = Transaction::new();
        let mut todo = 0;
        for i in 0..n {
            let id = if kind == 2 { r.next() % span } else { base + i };
            if kind == 1 {
                if model.remove(&id).is_some() {
                    let header = db.get_from_collection(DocumentId::from_u64(id), &Bulk::collection_name()).or_fail("get")?.ok_or_else(|| Failure::new(format!("document {id} is gone")))?.header;
                    tx.push(Operation::delete(Bulk::collection_name(), header));
                    todo += 1;
                }
            } else {
                let v = (r.next() % (span * 4)) as u32;
                tx.push(Operation::overwrite(Bulk::collection_name(), DocumentId::from_u64(id), v.to_be_bytes().to_vec()));
                model.insert(id, v);
                todo += 1;
            }
            if todo == 5_000 || i == n - 1 {
                let t = std::mem::take(&mut tx);
                t.apply(&db).or_fail("transaction")?;
                pending += todo;
                todo = 0;
            }
        }
        changes += n;
        ctx.add("documents_changed", n);
        if changes >= least && s.chance(1, 4) || changes >= total {
            ctx.log(format!("views of {} documents", model.len()));
            if pending > 1024 {
                ctx.count("views_updated_by_more_than_a_batch");
                ctx.nontrivial();
            }
            pending = 0;
            check(&db, &model, ctx)?;
            if s.chance(1, 4) {
                ctx.log("compact");
                db.compact().or_fail("compact")?;
                check(&db, &model, ctx)?;
            }
        }
    }
    Ok(())
}
fn large(s: &mut Source, ctx: &mut Ctx) -> Res {
    let total = 1_500 + s.draw(9_000);
    run(s, ctx, total, 0)
}
fn huge(s: &mut Source, ctx: &mut Ctx) -> Res {
    // Views are updated by 100,000 documents at a time.
    let least = 130_000 + s.draw(10_000);
    run(s, ctx, 160_000, least)
}
pub fn sections() -> Vec<Section> {
    vec![section("large", 16, 800, large), section("huge", 1, 6, huge)]
}
