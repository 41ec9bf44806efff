//! Requests to a storage as data, executed through any interface (blocking,
//! asynchronous, remote), with answers normalized so that they can be
//! compared.
use std::fmt::Debug;

use bonsaidb_core::admin::User;
use bonsaidb_core::connection::{
    AccessPolicy, AsyncConnection, AsyncLowLevelConnection, AsyncStorageConnection, Connection, LowLevelConnection, Range, SensitiveString,
    SerializedQueryKey, Sort, StorageConnection,
};
use bonsaidb_core::document::{DocumentId, OwnedDocument};
use bonsaidb_core::keyvalue::{AsyncKeyValue, KeyOperation, KeyValue};
use bonsaidb_core::pubsub::{AsyncPubSub, PubSub};
use bonsaidb_core::schema::view::map::{MappedSerializedDocuments, Serialized};
use bonsaidb_core::schema::{Collection, NamedReference, SchemaName, SchemaSummary};
use bonsaidb_core::transaction::Transaction;
use bonsaidb_core::Error;

use crate::fix::*;

pub type Name = NamedReference<'static, u64>;
#[derive(Clone, Debug)]
pub enum Req {
    ListDatabases,
    ListSchemas,
    CreateDatabase { name: String, schema: SchemaName, only_if_needed: bool },
    DeleteDatabase(String),
    CreateUser(String),
    DeleteUser(Name),
    SetPassword(Name, String),
    AddGroup(Name, Name),
    RemoveGroup(Name, Name),
    AddRole(Name, Name),
    RemoveRole(Name, Name),
    Db(DbReq),
}
#[derive(Clone, Debug)]
pub enum DbReq {
    Apply(Vec<Op>),
    Get(Col, DocumentId),
    GetMultiple(Col, Vec<DocumentId>),
    List(Col, Range<DocumentId>, Sort, Option<u32>),
    Headers(Col, Range<DocumentId>, Sort, Option<u32>),
    Count(Col, Range<DocumentId>),
    Query(V, Option<SerializedQueryKey>, Sort, Option<u32>, AccessPolicy),
    QueryDocs(V, Option<SerializedQueryKey>, Sort, Option<u32>, AccessPolicy),
    Reduce(V, Option<SerializedQueryKey>, AccessPolicy),
    ReduceGrouped(V, Option<SerializedQueryKey>, AccessPolicy),
    DeleteDocs(V, Option<SerializedQueryKey>, AccessPolicy),
    Transactions(Option<u64>, Option<u32>),
    LastTransaction,
    Compact,
    CompactCollection(Col),
    CompactKv,
    Kv(KeyOperation),
    Publish(Vec<u8>, Vec<u8>),
    PublishAll(Vec<Vec<u8>>, Vec<u8>),
}

/// A normalized answer.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok(String),
    /// The permission error, as text.
    Denied(String),
    Err(String),
}
pub fn error(e: &Error) -> Out {
    match e {
        Error::PermissionDenied(p) => Out::Denied(p.to_string()),
        // revisions of users depend on the salts of their passwords
        Error::UniqueKeyViolation { view, existing_document, conflicting_document } if view.collection == User::collection_name() => {
            Out::Err(format!("UniqueKeyViolation {view:?} {:?} {:?}", existing_document.id, conflicting_document.id))
        }
        other => Out::Err(format!("{other:?}")),
    }
}
pub fn out<T: Debug>(r: Result<T, Error>) -> Out {
    match r {
        Ok(v) => Out::Ok(format!("{v:?}")),
        Err(e) => error(&e),
    }
}
fn sorted(r: Result<Vec<OwnedDocument>, Error>) -> Result<Vec<OwnedDocument>, Error> {
    r.map(|mut d| {
        d.sort_by(|a, b| a.header.id.cmp(&b.header.id));
        d
    })
}
fn debugged<T: Debug>(r: Result<Vec<T>, Error>) -> Result<Vec<String>, Error> {
    r.map(|v| {
        let mut v: Vec<String> = v.iter().map(|x| format!("{x:?}")).collect();
        v.sort();
        v
    })
}
fn summaries(r: Result<Vec<SchemaSummary>, Error>) -> Result<Vec<Vec<String>>, Error> {
    r.map(|v| {
        v.iter()
            .filter(|s| !s.name.to_string().contains("hosted"))
            .map(|s| {
                let mut c: Vec<String> = s
                    .collections()
                    .flat_map(|c| c.views().map(|v| format!("{v:?}")).chain([format!("{} {:?}", c.name, c.primary_key)]).collect::<Vec<_>>())
                    .collect();
                c.sort();
                c.insert(0, s.name.to_string());
                c
            })
            .collect()
    })
}
/// The order of mappings with the same key is not specified; nor, given a
/// limit, which of the last ones are returned.
fn mappings(r: Result<Vec<Serialized>, Error>, limit: Option<u32>) -> Result<Vec<String>, Error> {
    r.map(|m| {
        let cut = limit.map_or(false, |l| m.len() as u64 >= u64::from(l));
        let mut out = vec![];
        let mut i = 0;
        while i < m.len() {
            let n = m[i..].iter().take_while(|x| x.key == m[i].key).count();
            if cut && i + n == m.len() {
                out.push(format!("{n} of {:?}", m[i].key));
            } else {
                let mut run: Vec<String> = m[i..i + n].iter().map(|x| format!("{x:?}")).collect();
                run.sort();
                out.extend(run);
            }
            i += n;
        }
        out
    })
}
fn mapped_docs(r: Result<MappedSerializedDocuments, Error>, limit: Option<u32>) -> Result<(Vec<String>, Vec<String>), Error> {
    let r = r?;
    let last = r.mappings.last().map(|m| m.key.clone());
    let cut = limit.map_or(false, |l| r.mappings.len() as u64 >= u64::from(l));
    let docs: Vec<String> = r
        .documents
        .iter()
        .filter(|(id, _)| !cut || r.mappings.iter().any(|m| &m.source.id == *id && Some(&m.key) != last.as_ref()))
        .map(|(id, d)| format!("{id:?} {d:?}"))
        .collect();
    for id in r.documents.keys() {
        assert!(r.mappings.iter().any(|m| &m.source.id == id), "a document of no mapping is returned: {id:?}");
    }
    for m in &r.mappings {
        assert!(r.documents.contains_key(&m.source.id), "a mapping comes without its document: {m:?}");
    }
    Ok((mappings(Ok(r.mappings), limit)?, docs))
}
pub fn transaction(ops: &[Op]) -> Transaction {
    let mut tx = Transaction::new();
    for op in ops {
        tx.push(op.operation());
    }
    tx
}

macro_rules! executor {
    ($name:ident, $dbname:ident, [$($asy:tt)*], [$($aw:tt)*], [$($sb:tt)*], [$($db:tt)*]) => {
        pub $($asy)* fn $name<S: $($sb)*>(s: &S, db: Option<&S::Database>, req: &Req) -> Out
        where S::Database: $($db)*
        {
            match req.clone() {
                // (what servers add is left out)
                Req::ListDatabases => out(debugged(s.list_databases() $($aw)*.map(|mut d| {
                    d.retain(|d| d.name != "_hosted");
                    d
                }))),
                Req::ListSchemas => out(debugged(summaries(s.list_available_schemas() $($aw)*))),
                Req::CreateDatabase { name, schema, only_if_needed } => out(s.create_database_with_schema(&name, schema, only_if_needed) $($aw)*),
                Req::DeleteDatabase(name) => out(s.delete_database(&name) $($aw)*),
                Req::CreateUser(name) => out(s.create_user(&name) $($aw)*),
                Req::DeleteUser(user) => out(s.delete_user(user) $($aw)*),
                Req::SetPassword(user, p) => out(s.set_user_password(user, SensitiveString(p)) $($aw)*),
                Req::AddGroup(user, g) => out(s.add_permission_group_to_user(user, g) $($aw)*),
                Req::RemoveGroup(user, g) => out(s.remove_permission_group_from_user(user, g) $($aw)*),
                Req::AddRole(user, g) => out(s.add_role_to_user(user, g) $($aw)*),
                Req::RemoveRole(user, g) => out(s.remove_role_from_user(user, g) $($aw)*),
                Req::Db(r) => $dbname(db.expect("HARNESS: no database"), &r) $($aw)*,
            }
        }
        pub $($asy)* fn $dbname<D: $($db)*>(db: &D, req: &DbReq) -> Out {
            match req.clone() {
                DbReq::Apply(ops) => out(db.apply_transaction(transaction(&ops)) $($aw)*),
                DbReq::Get(c, id) => out(db.get_from_collection(id, &c.name()) $($aw)*),
                DbReq::GetMultiple(c, ids) => out(sorted(db.get_multiple_from_collection(&ids, &c.name()) $($aw)*)),
                DbReq::List(c, r, o, l) => out(db.list_from_collection(r, o, l, &c.name()) $($aw)*),
                DbReq::Headers(c, r, o, l) => out(db.list_headers_from_collection(r, o, l, &c.name()) $($aw)*),
                DbReq::Count(c, r) => out(db.count_from_collection(r, &c.name()) $($aw)*),
                DbReq::Query(v, k, o, l, p) => out(mappings(db.query_by_name(&v.name(), k, o, l, p) $($aw)*, l)),
                DbReq::QueryDocs(v, k, o, l, p) => out(mapped_docs(db.query_by_name_with_docs(&v.name(), k, o, l, p) $($aw)*, l)),
                DbReq::Reduce(v, k, p) => out(db.reduce_by_name(&v.name(), k, p) $($aw)*),
                DbReq::ReduceGrouped(v, k, p) => out(db.reduce_grouped_by_name(&v.name(), k, p) $($aw)*),
                DbReq::DeleteDocs(v, k, p) => out(db.delete_docs_by_name(&v.name(), k, p) $($aw)*),
                DbReq::Transactions(start, limit) => out(db.list_executed_transactions(start, limit) $($aw)*),
                DbReq::LastTransaction => out(db.last_transaction_id() $($aw)*),
                DbReq::Compact => out(db.compact() $($aw)*),
                DbReq::CompactCollection(c) => out(db.compact_collection_by_name(c.name()) $($aw)*),
                DbReq::CompactKv => out(db.compact_key_value_store() $($aw)*),
                DbReq::Kv(op) => out(db.execute_key_operation(op) $($aw)*),
                DbReq::Publish(t, p) => out(db.publish_bytes(t, p) $($aw)*),
                DbReq::PublishAll(t, p) => out(db.publish_bytes_to_all(t, p) $($aw)*),
            }
        }
    };
}
executor!(exec, exec_db, [], [], [StorageConnection], [Connection + LowLevelConnection + KeyValue + PubSub]);
executor!(exec_async, exec_db_async, [async], [.await], [AsyncStorageConnection], [AsyncConnection + AsyncLowLevelConnection + AsyncKeyValue + AsyncPubSub]);
