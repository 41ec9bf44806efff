//! C18: operations without permission.
use bonsaidb_core::admin::{PermissionGroup, Role, User};
use bonsaidb_core::connection::{
    AccessPolicy, AsyncStorageConnection, AuthenticationMethod, Connection, HasSession, IdentityReference, LowLevelConnection, Range, SensitiveString,
    Session, SessionAuthentication, Sort, StorageConnection,
};
use bonsaidb_core::document::{DocumentId, Header};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::permissions::bonsai::*;
use bonsaidb_core::permissions::{ActionName, ActionNameList, Identifier, ResourceName, Statement};
use bonsaidb_core::pubsub::{PubSub, Subscriber};
use bonsaidb_core::schema::{Collection, NamedCollection, NamedReference, Schema, SerializedCollection};
use bonsaidb_core::permissions::Action;
use bonsaidb_core::transaction::Changes;
use bonsaidb_local::{Database, Storage, StorageNonBlocking};
use std::collections::BTreeSet;

use crate::engine::*;
use crate::fix::*;
use crate::hist::{gen_key_for, gen_limit, gen_ops_for, gen_sort};
use crate::kv::{gen_kop, KModel};
use crate::ops::*;
use crate::perms::*;
use crate::{ensure, ensure_eq, fail};

type Need = (Resource, BonsaiAction);
fn need(r: ResourceName<'_>, a: BonsaiAction) -> Need {
    (resource(&r), a)
}
fn same_need(a: &Need, b: &Need) -> bool {
    a.0 == b.0 && act(&a.1) == act(&b.1)
}
fn server(a: ServerAction) -> BonsaiAction {
    BonsaiAction::Server(a)
}
fn database(a: DatabaseAction) -> BonsaiAction {
    BonsaiAction::Database(a)
}
fn document(a: DocumentAction) -> BonsaiAction {
    database(DatabaseAction::Document(a))
}

const DBS: [&str; 3] = ["db", "other", "user"];
struct Pair {
    /// Operated through restricted sessions.
    a: Storage,
    /// The mirror, operated without restrictions.
    b: Storage,
    _scratch: Scratch,
    history: Vec<(Col, Header)>,
    km: KModel,
    used: BTreeSet<(Option<String>, String)>,
}
fn dbh(s: &Storage, name: &str) -> Res<Database> {
    match name {
        "_admin" => Ok(s.admin()),
        _ => s.database::<Main>(name).or_fail("opening a database"),
    }
}
impl Pair {
    fn new(s: &mut Source) -> Res<Self> {
        let scratch = Scratch::new();
        let open = |n: &str| -> Res<Storage> { Storage::open(config(&scratch.path(n))).or_fail("opening") };
        let p = Pair { a: open("a")?, b: open("b")?, _scratch: scratch, history: vec![], km: KModel::default(), used: BTreeSet::new() };
        let users = 1 + s.draw(2);
        for st in [&p.a, &p.b] {
            for d in DBS {
                st.create_database::<Main>(d, false).or_fail("creating a database")?;
            }
            let admin = st.admin();
            for g in 0..2 {
                PermissionGroup { name: format!("g{g}"), statements: vec![Statement::for_any().allowing_all()] }.push_into(&admin).or_fail("group")?;
            }
            for r in 0..2 {
                Role { name: format!("r{r}"), groups: vec![] }.push_into(&admin).or_fail("role")?;
            }
            for u in 0..users {
                st.create_user(&format!("u{u}")).or_fail("user")?;
            }
        }
        Ok(p)
    }
    /// Everything observable.
    fn dump(&self, st: &Storage) -> Res<Vec<String>> {
        let mut out = vec![];
        let dbs = exec(st, None, &Req::ListDatabases);
        out.push(format!("{dbs:?}"));
        let mut names: Vec<String> = st.list_databases().or_fail("list")?.into_iter().filter(|d| d.schema == Main::schema_name()).map(|d| d.name).collect();
        names.sort();
        for d in names {
            let db = dbh(st, &d)?;
            for c in [Col::Item, Col::Named, Col::Raw] {
                out.push(format!("{d} {c:?} {:?}", exec_db(&db, &DbReq::List(c, Range::from(..), Sort::Ascending, None))));
            }
            // updating views takes transaction ids, too; changes of keys are persisted
            // in the background
            let txs = db.list_executed_transactions(None, Some(1000)).or_fail("transactions")?;
            // (documents deleted through a view come in no particular order)
            let mut log = vec![];
            for t in &txs {
                if let Changes::Documents(c) = &t.changes {
                    let mut docs: Vec<String> = c.documents.iter().map(|x| format!("{:?} {:?} {}", c.collections.get(x.collection as usize), x.id, x.deleted)).collect();
                    docs.sort();
                    log.push(docs);
                }
            }
            out.push(format!("{d} {log:?}"));
            for (ns, k) in &self.used {
                let v = match ns {
                    Some(ns) => db.with_key_namespace(ns).get_key(k).query(),
                    None => db.get_key(k).query(),
                };
                out.push(format!("{d} {ns:?} {k} {v:?}"));
            }
        }
        let admin = st.admin();
        for u in User::all(&admin).query().or_fail("users")? {
            out.push(format!("{:?} {} {:?} {:?} {}", u.header, u.contents.username, u.contents.groups, u.contents.roles, u.contents.argon_hash.is_some()).replace(&sha(&u.header.revision), ""));
        }
        out.push(format!("{:?}", admin.collection::<PermissionGroup>().all().headers()));
        out.push(format!("{:?}", admin.collection::<Role>().all().headers()));
        Ok(out)
    }
    fn same(&self, what: &str) -> Res {
        let (a, b) = (self.dump(&self.a)?, self.dump(&self.b)?);
        for i in 0..a.len().max(b.len()) {
            ensure_eq!(a.get(i), b.get(i), "{what}: restricted storage (left) and mirror (right) differ");
        }
        Ok(())
    }
    fn model(&self, d: &str) -> Res<Model> {
        let mut m = Model::default();
        if d == "_admin" {
            return Ok(m);
        }
        let db = dbh(&self.b, d)?;
        for c in [Col::Item, Col::Named, Col::Raw] {
            for doc in db.list_from_collection(Range::from(..), Sort::Ascending, None, &c.name()).or_fail("list")? {
                m.col_mut(c).insert(doc.header.id, Doc { rev: doc.header.revision, contents: doc.contents.to_vec() });
            }
        }
        Ok(m)
    }
    fn user(&self, n: &Name) -> Res<Option<u64>> {
        match n {
            NamedReference::Name(n) => Ok(User::load(n.as_ref(), &self.b.admin()).or_fail("user")?.map(|u| u.header.id)),
            NamedReference::Key(k) => Ok(User::get(k, &self.b.admin()).or_fail("user")?.map(|u| u.header.id)),
            NamedReference::Id(k) => Ok(User::get(&k.deserialize::<u64>().or_fail("id")?, &self.b.admin()).or_fail("user")?.map(|u| u.header.id)),
        }
    }
    fn exists<C: bonsaidb_core::schema::NamedCollection<PrimaryKey = u64> + SerializedCollection>(&self, n: &Name) -> Res<bool> {
        match n {
            NamedReference::Name(n) => Ok(C::load_document(n.as_ref(), &self.b.admin()).or_fail("load")?.is_some()),
            // by id, existence is not checked
            _ => Ok(true),
        }
    }
}
fn sha(r: &bonsaidb_core::document::Revision) -> String {
    format!("{r:?}")
}

pub fn gen_ref(s: &mut Source, prefix: &str, ids: &[u64]) -> Name {
    let i = s.draw(2);
    match s.draw(5) {
        0 | 1 if !ids.is_empty() => NamedReference::Key(*s.pick(ids)),
        2 if !ids.is_empty() => NamedReference::Id(DocumentId::from_u64(*s.pick(ids))),
        3 => NamedReference::Key(90 + i),
        _ => NamedReference::Name(format!("{prefix}{i}").into()),
    }
}
pub fn gen_dbreq(s: &mut Source, history: &[(Col, Header)], km: &KModel, m: &Model) -> DbReq {
    let col = [Col::Item, Col::Named, Col::Raw][s.weighted(&[5, 2, 3])];
    let existing: Vec<DocumentId> = m.col(col).keys().cloned().collect();
    let id = |s: &mut Source| if !existing.is_empty() && s.chance(2, 3) { s.pick(&existing).clone() } else { gen_id(s, col) };
    let v = *s.pick(m.all_views());
    let topic = |s: &mut Source| (*s.pick(&[&b"t"[..], b"tt", b"", b"\0"])).to_vec();
    match s.draw(19) {
        0..=3 => DbReq::Apply(gen_ops_for(s, m, history, 4)),
        4 => DbReq::Get(col, id(s)),
        5 => {
            let mut ids = s.list(0, 4, 2, |s| id(s));
            ids.sort();
            ids.dedup();
            DbReq::GetMultiple(col, ids)
        }
        6 => DbReq::List(col, gen_range(s, col), gen_sort(s), gen_limit(s)),
        7 => DbReq::Headers(col, gen_range(s, col), gen_sort(s), gen_limit(s)),
        8 => DbReq::Count(col, gen_range(s, col)),
        9 => DbReq::Query(v, gen_key_for(s, m, v), gen_sort(s), gen_limit(s), AccessPolicy::UpdateBefore),
        10 => DbReq::QueryDocs(v, gen_key_for(s, m, v), gen_sort(s), gen_limit(s), AccessPolicy::UpdateBefore),
        11 => {
            if s.bool() {
                DbReq::Reduce(v, gen_key_for(s, m, v), AccessPolicy::UpdateBefore)
            } else {
                DbReq::ReduceGrouped(v, gen_key_for(s, m, v), AccessPolicy::UpdateBefore)
            }
        }
        12 => DbReq::DeleteDocs(v, gen_key_for(s, m, v), AccessPolicy::UpdateBefore),
        13 => DbReq::Transactions(if s.bool() { Some(s.draw(4)) } else { None }, if s.bool() { Some(s.draw(3) as u32) } else { None }),
        14 => DbReq::LastTransaction,
        15 => match s.draw(2) {
            0 => DbReq::Compact,
            1 => DbReq::CompactCollection(col),
            _ => DbReq::CompactKv,
        },
        16 | 17 => {
            let mut op = gen_kop(s, km, false);
            if let bonsaidb_core::keyvalue::Command::Set(set) = &mut op.command {
                set.expiration = None;
            }
            // separators of stored key names: known findings of C10
            op.namespace = op.namespace.filter(|n| !n.is_empty() && !n.contains('\0'));
            DbReq::Kv(op)
        }
        18 => DbReq::Publish(topic(s), s.bytes(2, 1)),
        _ => DbReq::PublishAll(s.list(0, 3, 2, |s| topic(s)), s.bytes(2, 1)),
    }
}
pub fn gen_req(s: &mut Source, users: &[u64]) -> Req {
    match s.draw(11) {
        0 => Req::ListDatabases,
        1 => Req::ListSchemas,
        2 => Req::CreateDatabase { name: (*s.pick(&["db", "new", "new2"])).to_string(), schema: Main::schema_name(), only_if_needed: s.bool() },
        3 => Req::DeleteDatabase((*s.pick(&["new", "new2", "missing"])).to_string()),
        4 => Req::CreateUser((*s.pick(&["u0", "u2", "x"])).to_string()),
        5 => Req::DeleteUser(gen_ref(s, "u", users)),
        6 => Req::SetPassword(gen_ref(s, "u", users), "pw".into()),
        7 => Req::AddGroup(gen_ref(s, "u", users), gen_ref(s, "g", &[0, 1])),
        8 => Req::RemoveGroup(gen_ref(s, "u", users), gen_ref(s, "g", &[0, 1])),
        9 => Req::AddRole(gen_ref(s, "u", users), gen_ref(s, "r", &[0, 1])),
        10 => Req::RemoveRole(gen_ref(s, "u", users), gen_ref(s, "r", &[0, 1])),
        _ => Req::ListDatabases,
    }
}

/// What a request needs, from the documentation of the actions; None if the
/// request names something that does not exist, so that it fails anyway.
fn needs(p: &Pair, req: &Req) -> Res<Option<Vec<Need>>> {
    let user = |n: &Name, a: ServerAction| -> Res<Option<Vec<Need>>> { Ok(p.user(n)?.map(|id| vec![need(user_resource_name(id), server(a))])) };
    Ok(match req {
        Req::ListDatabases => Some(vec![need(bonsaidb_resource_name(), server(ServerAction::ListDatabases))]),
        Req::ListSchemas => Some(vec![need(bonsaidb_resource_name(), server(ServerAction::ListAvailableSchemas))]),
        Req::CreateDatabase { name, .. } => Some(vec![need(database_resource_name(name.as_str()), server(ServerAction::CreateDatabase))]),
        Req::DeleteDatabase(name) => Some(vec![need(database_resource_name(name.as_str()), server(ServerAction::DeleteDatabase))]),
        Req::CreateUser(_) => Some(vec![need(bonsaidb_resource_name(), server(ServerAction::CreateUser))]),
        Req::DeleteUser(u) => user(u, ServerAction::DeleteUser)?,
        Req::SetPassword(u, _) => user(u, ServerAction::SetPassword)?,
        Req::AddGroup(u, g) | Req::RemoveGroup(u, g) => {
            if p.exists::<PermissionGroup>(g)? {
                user(u, ServerAction::ModifyUserPermissionGroups)?
            } else {
                None
            }
        }
        Req::AddRole(u, g) | Req::RemoveRole(u, g) => {
            if p.exists::<Role>(g)? {
                user(u, ServerAction::ModifyUserRoles)?
            } else {
                None
            }
        }
        Req::Db(_) => unreachable!("HARNESS: database request"),
    })
}
fn db_needs(p: &Pair, d: &str, req: &DbReq) -> Res<Vec<Need>> {
    let coll = |c: &Col, a: DocumentAction| need(collection_resource_name(d, &c.name()), document(a));
    let doc = |c: &Col, id: &DocumentId, a: DocumentAction| need(document_resource_name(d, &c.name(), id), document(a));
    let view = |v: &V, a: ViewAction| need(view_resource_name(d, &v.name()), database(DatabaseAction::View(a)));
    let topic = |t: &Vec<u8>| need(pubsub_topic_resource_name(d, t), database(DatabaseAction::PubSub(PubSubAction::Publish)));
    let sources = |v: &V, k: &Option<bonsaidb_core::connection::SerializedQueryKey>, o: Sort, l: Option<u32>| -> Res<BTreeSet<DocumentId>> {
        let r = dbh(&p.b, d)?.query_by_name(&v.name(), k.clone(), o, l, AccessPolicy::UpdateBefore);
        // an inverted range is an error
        Ok(r.map(|m| m.into_iter().map(|m| m.source.id).collect()).unwrap_or_default())
    };
    Ok(match req {
        DbReq::Apply(ops) => ops
            .iter()
            .map(|op| match op {
                Op::Insert { col, .. } => coll(col, DocumentAction::Insert),
                Op::Update { col, header, .. } => doc(col, &header.id, DocumentAction::Update),
                Op::Overwrite { col, id, .. } => doc(col, id, DocumentAction::Overwrite),
                Op::Delete { col, header } => doc(col, &header.id, DocumentAction::Delete),
                Op::Check { col, id, .. } => doc(col, id, DocumentAction::Get),
            })
            .collect(),
        DbReq::Get(c, id) => vec![doc(c, id, DocumentAction::Get)],
        DbReq::GetMultiple(c, ids) => ids.iter().map(|id| doc(c, id, DocumentAction::Get)).collect(),
        DbReq::List(c, ..) => vec![coll(c, DocumentAction::List)],
        DbReq::Headers(c, ..) => vec![coll(c, DocumentAction::ListHeaders)],
        DbReq::Count(c, _) => vec![coll(c, DocumentAction::Count)],
        DbReq::Query(v, ..) => vec![view(v, ViewAction::Query)],
        DbReq::QueryDocs(v, k, o, l, _) => {
            let mut n = vec![view(v, ViewAction::Query)];
            n.extend(sources(v, k, *o, *l)?.iter().map(|id| doc(&v.col(), id, DocumentAction::Get)));
            n
        }
        DbReq::Reduce(v, ..) | DbReq::ReduceGrouped(v, ..) => vec![view(v, ViewAction::Reduce)],
        DbReq::DeleteDocs(v, k, _) => {
            let mut n = vec![view(v, ViewAction::DeleteDocs)];
            n.extend(sources(v, k, Sort::Ascending, None)?.iter().map(|id| doc(&v.col(), id, DocumentAction::Delete)));
            n
        }
        DbReq::Transactions(..) => vec![need(database_resource_name(d), database(DatabaseAction::Transaction(TransactionAction::ListExecuted)))],
        DbReq::LastTransaction => vec![need(database_resource_name(d), database(DatabaseAction::Transaction(TransactionAction::GetLastId)))],
        DbReq::Compact => vec![need(database_resource_name(d), database(DatabaseAction::Compact))],
        DbReq::CompactCollection(c) => vec![need(collection_resource_name(d, &c.name()), database(DatabaseAction::Compact))],
        DbReq::CompactKv => vec![need(kv_resource_name(d), database(DatabaseAction::Compact))],
        DbReq::Kv(op) => {
            vec![need(keyvalue_key_resource_name(d, op.namespace.as_deref(), &op.key), database(DatabaseAction::KeyValue(KeyValueAction::ExecuteOperation)))]
        }
        DbReq::Publish(t, _) => vec![topic(t)],
        DbReq::PublishAll(t, _) => t.iter().map(topic).collect(),
    })
}

fn named(parts: &[String]) -> ActionName {
    Act(parts.to_vec()).name()
}
/// Statements around what is needed.
fn gen_grants(s: &mut Source, needs: &[Need]) -> Vec<Statement> {
    let exact = |n: &Need| Statement { resources: vec![ResourceName::from(&n.0[..]).to_owned()], actions: Some(ActionNameList::List(vec![n.1.name()])), configuration: None };
    // a broader grant that still covers the need
    let broad = |s: &mut Source, n: &Need| {
        let mut r = n.0.clone();
        for seg in &mut r {
            if s.chance(1, 3) {
                *seg = Identifier::Any;
            }
        }
        if s.bool() {
            r.truncate(1 + s.draw(r.len() as u64 - 1) as usize);
        }
        let name = act(&n.1).0;
        let actions = match s.draw(2) {
            0 => ActionNameList::All,
            1 => ActionNameList::List(vec![named(&name[..1 + s.draw(name.len() as u64 - 1) as usize])]),
            _ => ActionNameList::List(vec![n.1.name()]),
        };
        Statement { resources: vec![ResourceName::from(&r[..]).to_owned()], actions: Some(actions), configuration: None }
    };
    let missing = if needs.is_empty() { 0 } else { s.below(needs.len()) };
    let mut out: Vec<Statement> = match s.weighted(&[3, 4, 3, 5, 4, 1]) {
        0 => needs.iter().map(exact).collect(),
        // all but one
        1 => needs.iter().enumerate().filter(|(i, n)| *i != missing && !same_need(n, &needs[missing])).map(|(_, n)| exact(n)).collect(),
        2 => needs.iter().map(|n| broad(s, n)).collect(),
        // every other action on everything
        3 => match needs.get(missing) {
            None => vec![],
            Some(n) => {
                let others: Vec<ActionName> = leaves().iter().filter(|(a, _)| act(a) != act(&n.1)).map(|(a, _)| a.name()).collect();
                let mut v = vec![Statement { resources: vec![ResourceName::any()], actions: Some(ActionNameList::List(others)), configuration: None }];
                // the other needs of the same action
                v.extend(needs.iter().filter(|o| !same_need(o, n) && act(&o.1) == act(&n.1)).map(exact));
                v
            }
        },
        // the action, or everything, on another resource
        4 => match needs.get(missing) {
            None => vec![],
            Some(n) => {
                let mut r = n.0.clone();
                match s.draw(2) {
                    0 => r.push(Identifier::Any),
                    _ if r.len() > 1 => {
                        let i = 1 + s.below(r.len() - 1);
                        r[i] = match &r[i] {
                            Identifier::Integer(x) => Identifier::Integer(x ^ 1),
                            Identifier::Bytes(b) => {
                                let mut b = b.to_vec();
                                b.push(0);
                                Identifier::Bytes(b.into())
                            }
                            other => Identifier::from(format!("{other}x")),
                        };
                    }
                    _ => r.push(Identifier::from("x")),
                }
                let actions = if s.bool() { ActionNameList::All } else { ActionNameList::List(vec![n.1.name()]) };
                let mut v = vec![Statement { resources: vec![ResourceName::from(&r[..]).to_owned()], actions: Some(actions), configuration: None }];
                v.extend(needs.iter().filter(|o| !same_need(o, n)).map(exact));
                v
            }
        },
        _ => vec![],
    };
    for _ in 0..s.draw(2) {
        let l = leaves();
        let a = s.pick(&l).0;
        out.push(Statement::for_resource(database_resource_name((*s.pick(&DBS)).to_string())).allowing(&a));
    }
    out
}
/// A handle to `st` restricted to `grants`.
fn restricted(st: &Storage, grants: &[Statement]) -> Res<Storage> {
    st.assume_session(Session { id: None, authentication: SessionAuthentication::None, permissions: permissions(grants) }).or_fail("assume_session")
}
/// Derives another handle from a restricted one.
fn derive(s: &mut Source, st: &Storage) -> Res<Storage> {
    Ok(match s.draw(4) {
        0 => st.clone(),
        1 => st.admin().storage(),
        2 => dbh(st, "other")?.storage(),
        3 => dbh(st, "other")?.clone().storage().admin().storage(),
        _ => st.to_async_with_runtime(rt().handle().clone()).into_blocking(),
    })
}
pub fn rt() -> &'static tokio::runtime::Runtime {
    use std::sync::OnceLock;
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("HARNESS: runtime"))
}
fn judge(what: &str, grants: &[Statement], needs: Option<&[Need]>, got: &Out, mirror: impl FnOnce() -> Res<Out>, ctx: &mut Ctx) -> Res {
    let missing: Vec<&Need> = needs.unwrap_or(&[]).iter().filter(|n| !allowed(grants, &n.0, &act(&n.1))).collect();
    match (needs, missing.is_empty()) {
        (None, _) => {
            // it fails on something missing; what is reported is not specified
            ctx.count("missing");
            let b = mirror()?;
            if matches!(got, Out::Denied(_)) {
                ensure!(!matches!(b, Out::Ok(_)), "{what}: refused without a need");
            } else {
                ensure_eq!(got, &b, "{what}");
            }
        }
        (Some(_), true) => {
            ctx.count("allowed");
            ensure_eq!(got, &mirror()?, "{what}, permitted by {grants:?}: restricted (left) and unrestricted (right)");
        }
        (Some(n), false) => {
            ctx.count("refused");
            if n.len() > missing.len() {
                ctx.count("refused, partly permitted");
            }
            match got {
                Out::Denied(text) => {
                    ensure!(
                        missing.iter().any(|(r, a)| text.contains(&ResourceName::from(&r[..]).to_string()) && text.contains(&a.name().to_string())),
                        "{what}: the error '{text}' does not name a missing permission of {missing:?}"
                    );
                }
                other => {
                    return Err(Failure::new(format!("{what}: not permitted (missing {missing:?}, granted {grants:?}), but {}", short(other))));
                }
            }
        }
    }
    Ok(())
}

fn operations(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut p = Pair::new(s)?;
    // some contents
    for d in ["db", "other"] {
        let n = s.draw(5);
        for _ in 0..n {
            let m = p.model(d)?;
            let op = gen_op(s, &m, &[]);
            for st in [&p.a, &p.b] {
                let _ = exec_db(&dbh(st, d)?, &DbReq::Apply(vec![op.clone()]));
            }
        }
    }
    let steps = 4 + s.draw(8);
    for _ in 0..steps {
        let users: Vec<u64> = User::all(&p.b.admin()).headers().or_fail("users")?.iter().map(|h| h.id.deserialize().expect("HARNESS: id")).collect();
        match s.weighted(&[12, 6, 3, 2, 2]) {
            0 => {
                let d = *s.pick(&DBS);
                let m = p.model(d)?;
                let req = gen_dbreq(s, &p.history, &p.km, &m);
                if let DbReq::Kv(op) = &req {
                    p.used.insert((op.namespace.clone(), op.key.clone()));
                }
                let n = db_needs(&p, d, &req)?;
                let grants = gen_grants(s, &n);
                let what = format!("{d}: {}", short(&req));
                ctx.log(format!("{what} with {grants:?}"));
                let r = derive(s, &restricted(&p.a, &grants)?)?;
                let listeners = (listen(&p.a)?, listen(&p.b)?);
                // key-value changes are committed, and listed, in the background
                let before = if matches!(req, DbReq::Transactions(..)) { Some(exec_db(&dbh(&p.a, d)?, &req)) } else { None };
                let got = if s.chance(1, 3) {
                    let r = r.to_async_with_runtime(rt().handle().clone());
                    rt().block_on(async {
                        let db = r.database::<Main>(d).await.or_fail("opening")?;
                        Ok::<_, Failure>(exec_db_async(&db, &req).await)
                    })?
                } else {
                    exec_db(&dbh(&r, d)?, &req)
                };
                let mirror = if matches!(req, DbReq::Transactions(..) | DbReq::LastTransaction) { &p.a } else { &p.b };
                judge(&what, &grants, Some(&n), &got, || if before.as_ref() == Some(&got) { Ok(got.clone()) } else { Ok(exec_db(&dbh(mirror, d)?, &req)) }, ctx)?;
                ctx.nontrivial();
                ensure_eq!(heard(&listeners.0), heard(&listeners.1), "{what}: messages received from the restricted storage (left) and the mirror (right)");
            }
            1 => {
                let req = gen_req(s, &users);
                let n = needs(&p, &req)?;
                let grants = gen_grants(s, n.as_deref().unwrap_or(&[]));
                let what = short(&req);
                ctx.log(format!("{what} with {grants:?}"));
                let r = derive(s, &restricted(&p.a, &grants)?)?;
                let got = if s.chance(1, 3) {
                    let r = r.to_async_with_runtime(rt().handle().clone());
                    rt().block_on(exec_async(&r, None, &req))
                } else {
                    exec(&r, None, &req)
                };
                judge(&what, &grants, n.as_deref(), &got, || Ok(exec(&p.b, None, &req)), ctx)?;
                ctx.nontrivial();
            }
            2 => admin_step(s, &p, ctx)?,
            3 => identity_step(s, &p, &users, ctx)?,
            _ => pubsub_step(s, &p, ctx)?,
        }
        p.same("after it")?;
        let _ = &mut p.history;
    }
    Ok(())
}
fn listen(st: &Storage) -> Res<Vec<bonsaidb_local::Subscriber>> {
    let mut out = vec![];
    for d in DBS {
        let sub = dbh(st, d)?.create_subscriber().or_fail("subscriber")?;
        for t in [&b"t"[..], b"tt", b"", b"\0"] {
            sub.subscribe_to_bytes(t.to_vec()).or_fail("subscribe")?;
        }
        out.push(sub);
    }
    Ok(out)
}
fn heard(subs: &[bonsaidb_local::Subscriber]) -> Vec<Vec<(Vec<u8>, Vec<u8>)>> {
    subs.iter()
        .map(|s| {
            let mut v = vec![];
            while let Ok(m) = s.receiver().try_receive() {
                v.push((m.topic.to_vec(), m.payload.to_vec()));
            }
            v
        })
        .collect()
}
/// Reading and writing the admin database.
fn admin_step(s: &mut Source, p: &Pair, ctx: &mut Ctx) -> Res {
    let c = [User::collection_name(), PermissionGroup::collection_name(), Role::collection_name()][s.below(3)].clone();
    let write = s.bool();
    let id = DocumentId::from_u64(s.draw(2));
    let n = vec![if write {
        need(document_resource_name("_admin", &c, &id), document(DocumentAction::Overwrite))
    } else {
        need(collection_resource_name("_admin", &c), document(DocumentAction::List))
    }];
    let grants = gen_grants(s, &n);
    let what = format!("_admin: {} {c}", if write { "overwriting in" } else { "listing" });
    ctx.log(format!("{what} with {grants:?}"));
    let r = derive(s, &restricted(&p.a, &grants)?)?;
    let can = n.iter().all(|n| allowed(&grants, &n.0, &act(&n.1)));
    let go = |db: &Database| {
        if write {
            let mut tx = bonsaidb_core::transaction::Transaction::new();
            let contents = match c.name.as_ref() {
                "role" => Role::serialize(&Role { name: "r9".into(), groups: vec![1] }),
                "permission-group" => PermissionGroup::serialize(&PermissionGroup { name: "g9".into(), statements: vec![] }),
                _ => User::serialize(&User::default_with_username("u9")),
            }
            .expect("HARNESS: serialize");
            tx.push(bonsaidb_core::transaction::Operation::overwrite(c.clone(), id.clone(), contents));
            out(db.apply_transaction(tx).map(|r| r.len()))
        } else {
            out(db.list_from_collection(Range::from(..), Sort::Ascending, None, &c).map(|d| d.iter().map(|d| d.header.id.clone()).collect::<Vec<_>>()))
        }
    };
    let got = go(&r.admin());
    ctx.nontrivial();
    if can {
        ctx.count("allowed");
        ensure_eq!(got, go(&p.b.admin()), "{what}");
    } else {
        ctx.count("refused");
        ensure!(matches!(got, Out::Denied(_)), "{what}: not permitted by {grants:?}, but {}", short(&got));
    }
    Ok(())
}
/// Assuming identities and authenticating.
fn identity_step(s: &mut Source, p: &Pair, users: &[u64], ctx: &mut Ctx) -> Res {
    let (n, what, with_password) = match s.draw(2) {
        0 => {
            let Some(u) = users.get(s.draw(3) as usize) else { return Ok(()) };
            (need(user_resource_name(*u), server(ServerAction::AssumeIdentity)), Some(IdentityReference::User(NamedReference::Key(*u))), None)
        }
        1 => {
            let r = Role::all(&p.b.admin()).query().or_fail("roles")?;
            let Some(r) = r.get(s.draw(1) as usize) else { return Ok(()) };
            (need(role_resource_name(r.header.id), server(ServerAction::AssumeIdentity)), Some(IdentityReference::Role(NamedReference::Key(r.header.id))), None)
        }
        _ => {
            let Some(u) = users.get(s.draw(3) as usize) else { return Ok(()) };
            (need(user_resource_name(*u), server(ServerAction::Authenticate(AuthenticationMethod::PasswordHash))), None, Some(*u))
        }
    };
    let needs = vec![n];
    let grants = gen_grants(s, &needs);
    ctx.log(format!("identity {what:?} {with_password:?} with {grants:?}"));
    let r = derive(s, &restricted(&p.a, &grants)?)?;
    let can = needs.iter().all(|n| allowed(&grants, &n.0, &act(&n.1)));
    let go = |st: &Storage| -> Out {
        let r = match (&what, with_password) {
            (Some(i), _) => st.assume_identity(i.clone()),
            (None, Some(u)) => st.authenticate_with_password(u, SensitiveString("pw".into())),
            _ => unreachable!("HARNESS: identity"),
        };
        out(r.map(|st| st.session().map(|s| s.authentication.clone())))
    };
    let got = go(&r);
    ctx.nontrivial();
    if can {
        ctx.count("allowed");
        ensure_eq!(got, go(&p.b), "{what:?} {with_password:?}");
    } else {
        ctx.count("refused");
        ensure!(matches!(got, Out::Denied(_)), "{what:?} {with_password:?}: not permitted by {grants:?}, but {}", short(&got));
    }
    Ok(())
}
/// Subscribing with a restricted session.
fn pubsub_step(s: &mut Source, p: &Pair, ctx: &mut Ctx) -> Res {
    let d = *s.pick(&DBS);
    let topics: [&[u8]; 3] = [b"t", b"tt", b"\0"];
    let action = |a: PubSubAction| database(DatabaseAction::PubSub(a));
    let mut needs = vec![need(database_resource_name(d), action(PubSubAction::CreateSuscriber))];
    for t in topics {
        needs.push(need(pubsub_topic_resource_name(d, t), action(PubSubAction::SubscribeTo)));
        needs.push(need(pubsub_topic_resource_name(d, t), action(PubSubAction::UnsubscribeFrom)));
    }
    let mut grants = gen_grants(s, &needs);
    if s.chance(2, 3) {
        grants.push(Statement::for_resource(database_resource_name(d.to_string())).allowing(&action(PubSubAction::CreateSuscriber)));
    }
    ctx.log(format!("{d}: subscribing with {grants:?}"));
    let can = |n: &Need| allowed(&grants, &n.0, &act(&n.1));
    let r = derive(s, &restricted(&p.a, &grants)?)?;
    let db = dbh(&r, d)?;
    let sub = match db.create_subscriber() {
        Ok(sub) => {
            ensure!(can(&needs[0]), "a subscriber of {d} was created although {grants:?} do not permit it");
            sub
        }
        Err(bonsaidb_core::Error::PermissionDenied(_)) => {
            ensure!(!can(&needs[0]), "creating a subscriber was refused although {grants:?} permit it");
            ctx.count("refused");
            return Ok(());
        }
        Err(e) => fail!("create_subscriber: {e:?}"),
    };
    ctx.nontrivial();
    let mut subscribed: Vec<&[u8]> = vec![];
    let root = dbh(&p.a, d)?;
    let mut check = |what: &str, r: Result<(), bonsaidb_core::Error>, can: bool| -> Res<bool> {
        match r {
            Ok(()) if can => {
                ctx.count("allowed");
                Ok(true)
            }
            Err(bonsaidb_core::Error::PermissionDenied(_)) if !can => {
                ctx.count("refused");
                Ok(false)
            }
            r => fail!("{what}: permitted: {can} by {grants:?}, but {r:?}"),
        }
    };
    let hear = |subscribed: &[&[u8]]| -> Res {
        for t in topics {
            root.publish_bytes(t.to_vec(), b"m".to_vec()).or_fail("publish")?;
        }
        let mut got: Vec<Vec<u8>> = vec![];
        while let Ok(m) = sub.receiver().try_receive() {
            got.push(m.topic.to_vec());
        }
        got.sort();
        let mut want: Vec<Vec<u8>> = subscribed.iter().map(|t| t.to_vec()).collect();
        want.sort();
        // topics are delivered in their serialized or raw form, whichever was used
        ensure_eq!(got, want, "topics received by a restricted subscriber with {grants:?}");
        Ok(())
    };
    for (i, t) in topics.iter().enumerate() {
        if check("subscribing", sub.subscribe_to_bytes(t.to_vec()), can(&needs[1 + 2 * i]))? {
            subscribed.push(t);
        }
    }
    hear(&subscribed)?;
    for (i, t) in topics.iter().enumerate() {
        if check("unsubscribing", sub.unsubscribe_from_bytes(t), can(&needs[2 + 2 * i]))? {
            subscribed.retain(|x| x != t);
        }
    }
    hear(&subscribed)
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        level: "exploration",
        rule: "an operation was decided by generated permissions (refused or permitted)",
        assumptions: &[
            "What each operation needs is restated from the documentation of permissions::bonsai in harness/src/denied.rs (needs(), db_needs()).",
            "Requests naming users, groups or roles that do not exist may report that before the missing permission.",
            "Sessions are assumed with Storage::assume_session(); C19 decides which permissions an identity's session has, C22 what a remote client may do.",
        ],
        sections: vec![section("operations", 1_200, 60_000, operations).threads(8)],
    }
}
