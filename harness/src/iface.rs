//! C21: the interfaces of a storage are equivalent.
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

use bonsaidb::client::{AsyncClient, BlockingClient};
use bonsaidb::server::api::{Handler, HandlerError, HandlerResult, HandlerSession};
use bonsaidb::server::DefaultPermissions;
use bonsaidb_core::admin::{PermissionGroup, Role, User};
use bonsaidb_core::connection::{
    AccessPolicy,
    AsyncConnection, AsyncLowLevelConnection, AsyncStorageConnection, Connection, HasSession, IdentityReference, LowLevelConnection, Range, SensitiveString, Sort, StorageConnection,
};
use bonsaidb_core::keyvalue::{AsyncKeyValue, Command, KeyOperation, KeyValue, Numeric, Output, SetCommand, Value};
use bonsaidb_core::permissions::bonsai::*;
use bonsaidb_core::permissions::{Permissions, ResourceName, Statement};
use bonsaidb_core::schema::{NamedReference, Qualified, Schema, SerializedCollection};
use bonsaidb_core::transaction::{Changes, Operation, Transaction};
use bonsaidb_core::api::{Api, ApiName};
use bonsaidb_core::async_trait::async_trait;
use bonsaidb_core::document::DocumentId;
use serde::{Deserialize, Serialize};
use bonsaidb_local::{AsyncStorage, Storage};

use crate::denied::{gen_dbreq, gen_req, rt};
use crate::engine::*;
use crate::fix::*;
use crate::kv::KModel;
use crate::ops::*;
use crate::remote::*;
use crate::{ensure, ensure_eq, fail};

struct Side {
    what: &'static str,
    /// The storage behind the handles, unrestricted.
    storage: Storage,
    handles: Vec<Handle>,
    _remote: Option<Remote>,
}
const DBS: [&str; 2] = ["db", "other"];

fn side(kind: u64, scratch: &Scratch) -> Res<Side> {
    let path = scratch.path(&format!("s{kind}"));
    let remote = |quic: bool| -> Res<Remote> { Remote::start(config(&path), DefaultPermissions::AllowAll, quic, |c| c) };
    Ok(match kind {
        0 => {
            let storage = open(&path)?;
            Side { what: "Storage", handles: vec![Handle::Blocking(storage.clone())], storage, _remote: None }
        }
        1 => {
            let st: AsyncStorage = rt().block_on(AsyncStorage::open(config(&path))).or_fail("opening")?;
            Side { what: "AsyncStorage", storage: st.clone().into_blocking(), handles: vec![Handle::Async(st)], _remote: None }
        }
        2 => {
            let st: AsyncStorage = rt().block_on(AsyncStorage::open(config(&path))).or_fail("opening")?;
            let s = st.into_blocking();
            Side { what: "AsyncStorage::into_blocking", storage: s.clone(), handles: vec![Handle::Into(s)], _remote: None }
        }
        3 => {
            let r = remote(false)?;
            Side { what: "Server", storage: r.storage.clone(), handles: vec![Handle::Server(r.server.clone())], _remote: Some(r) }
        }
        4 | 5 => {
            let r = remote(kind == 5)?;
            let c = r.client(kind == 5)?;
            Side { what: if kind == 5 { "AsyncClient (QUIC)" } else { "AsyncClient (WebSocket)" }, storage: r.storage.clone(), handles: vec![Handle::Client(c)], _remote: Some(r) }
        }
        _ => {
            let r = remote(kind == 7)?;
            let c = r.client(kind == 7)?;
            Side {
                what: if kind == 7 { "BlockingClient (QUIC)" } else { "BlockingClient (WebSocket)" },
                storage: r.storage.clone(),
                handles: vec![Handle::BlockingClient(c.into())],
                _remote: Some(r),
            }
        }
    })
}
fn normal(req: &Req, o: Out) -> Out {
    match (req, o) {
        // views are updated in transactions, too
        (Req::Db(DbReq::LastTransaction), Out::Ok(_)) => Out::Ok(String::new()),
        (_, o) => o,
    }
}
/// Everything stored.
fn dump(st: &Storage, used: &BTreeSet<(Option<String>, String)>) -> Res<Vec<String>> {
    let mut out = vec![];
    let mut dbs: Vec<_> = st.list_databases().or_fail("list")?;
    dbs.sort_by(|a, b| a.name.cmp(&b.name));
    for d in dbs.iter().filter(|d| d.schema == Main::schema_name()) {
        let db = st.database::<Main>(&d.name).or_fail("opening")?;
        for c in [Col::Item, Col::Named, Col::Raw] {
            out.push(format!("{} {c:?} {:?}", d.name, exec_db(&db, &DbReq::List(c, Range::from(..), Sort::Ascending, None))));
        }
        let mut log = vec![];
        for t in db.list_executed_transactions(None, Some(1000)).or_fail("transactions")? {
            if let Changes::Documents(c) = &t.changes {
                let mut docs: Vec<String> = c.documents.iter().map(|x| format!("{:?} {:?} {}", c.collections.get(x.collection as usize), x.id, x.deleted)).collect();
                docs.sort();
                log.push(docs);
            }
        }
        out.push(format!("{} {log:?}", d.name));
        for (ns, k) in used {
            let v = match ns {
                Some(ns) => db.with_key_namespace(ns).get_key(k).query(),
                None => db.get_key(k).query(),
            };
            out.push(format!("{} {ns:?} {k} {v:?}", d.name));
        }
    }
    let admin = st.admin();
    for u in User::all(&admin).query().or_fail("users")? {
        out.push(format!("{} {} {:?} {:?} {}", u.header.id, u.contents.username, u.contents.groups, u.contents.roles, u.contents.argon_hash.is_some()));
    }
    Ok(out)
}
fn model(st: &Storage, d: &str) -> Res<Model> {
    let mut m = Model::default();
    if let Ok(db) = st.database::<Main>(d) {
        for c in [Col::Item, Col::Named, Col::Raw] {
            for doc in db.list_from_collection(Range::from(..), Sort::Ascending, None, &c.name()).or_fail("list")? {
                m.col_mut(c).insert(doc.header.id, Doc { rev: doc.header.revision, contents: doc.contents.to_vec() });
            }
        }
    }
    Ok(m)
}
/// What is allowed, over resources of every kind (permissions have no order of their own).
fn granted(p: &Permissions) -> String {
    let col = Col::Item.name();
    let id = DocumentId::from_u64(1);
    let mut resources = vec![ResourceName::named("elsewhere"), bonsaidb_resource_name(), user_resource_name(1), user_resource_name(2)];
    for d in ["db", "other", "third"] {
        resources.push(database_resource_name(d));
        resources.push(collection_resource_name(d, &col));
        resources.push(document_resource_name(d, &col, &id));
    }
    let leaves = crate::perms::leaves();
    resources.iter().map(|r| leaves.iter().map(|(a, _)| if p.allowed_to(r, a) { '1' } else { '0' }).collect::<String>() + " ").collect()
}
fn repeatable(r: &Req) -> bool {
    match r {
        Req::ListDatabases | Req::ListSchemas => true,
        Req::Db(r) => match r {
            DbReq::Apply(_) | DbReq::DeleteDocs(..) | DbReq::Publish(..) | DbReq::PublishAll(..) => false,
            DbReq::Compact | DbReq::CompactCollection(_) | DbReq::CompactKv => false,
            // (keys are persisted in the background)
            DbReq::Transactions(..) => false,
            DbReq::Kv(op) => matches!(op.command, Command::Get { delete: false }),
            _ => true,
        },
        _ => false,
    }
}

fn interfaces(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let mut sides = vec![side(0, &scratch)?];
    // one other local interface, one or two remote ones
    let mut kinds: BTreeSet<u64> = BTreeSet::new();
    for _ in 0..1 + s.draw(2) {
        kinds.insert(4 + s.draw(3));
    }
    kinds.insert(1 + s.draw(2));
    for k in kinds {
        sides.push(side(k, &scratch)?);
    }
    ctx.log(format!("{:?}", sides.iter().map(|s| s.what).collect::<Vec<_>>()));
    let groups: Vec<Vec<Statement>> = vec![
        vec![Statement::for_any().allowing_all()],
        vec![
            Statement::for_resource(database_resource_name("db")).allowing_all(),
            Statement::for_resource(bonsaidb_resource_name()).allowing(&BonsaiAction::Server(ServerAction::ListDatabases)),
        ],
        vec![Statement::for_resource(database_resource_name("other")).allowing(&BonsaiAction::Database(DatabaseAction::Document(DocumentAction::Get)))],
    ];
    let users = 1 + s.draw(1);
    let passwords = s.chance(1, 2);
    for side in &sides {
        let st = &side.storage;
        for d in DBS {
            let db = st.create_database::<Main>(d, false).or_fail("creating a database")?;
            // The first scan of a view maps it in the background.
            let mut t = Transaction::new();
            t.push(Operation::insert(Col::Raw.name(), Some(DocumentId::from_u64(1)), vec![]));
            db.apply_transaction(t).or_fail("insert")?;
            for v in Model::default().all_views() {
                db.query_by_name(&v.name(), None, Sort::Ascending, None, AccessPolicy::UpdateBefore).or_fail("query")?;
            }
        }
        let admin = st.admin();
        for (g, statements) in groups.iter().enumerate() {
            PermissionGroup { name: format!("g{g}"), statements: statements.clone() }.push_into(&admin).or_fail("group")?;
        }
        for r in 0..2u64 {
            Role { name: format!("r{r}"), groups: vec![r] }.push_into(&admin).or_fail("role")?;
        }
        for u in 0..users {
            let id = st.create_user(&format!("u{u}")).or_fail("user")?;
            st.add_permission_group_to_user(id, u % 3).or_fail("group")?;
            if passwords {
                st.set_user_password(id, SensitiveString(format!("pw{u}"))).or_fail("password")?;
            }
        }
    }
    let mut used: BTreeSet<(Option<String>, String)> = BTreeSet::new();
    let km = KModel::default();
    let mut history = vec![];
    let steps = 5 + s.draw(15);
    for _ in 0..steps {
        let n = sides[0].handles.len();
        let h = s.draw(n as u64 - 1) as usize;
        match s.weighted(&[20, 4, 2, 1]) {
            0 => {
                let d = *s.pick(&["db", "db", "db", "other", "other", "missing", "_admin"]);
                let m = model(&sides[0].storage, if d == "_admin" { "missing" } else { d })?;
                let mut r = gen_dbreq(s, &history, &km, &m);
                if let DbReq::Query(.., p) | DbReq::QueryDocs(.., p) | DbReq::Reduce(.., p) | DbReq::ReduceGrouped(.., p) | DbReq::DeleteDocs(.., p) = &mut r {
                    // (updates in the background would make answers depend on time)
                    if s.chance(1, 4) {
                        *p = AccessPolicy::NoUpdate;
                        ctx.count("views_not_updated");
                    }
                }
                if d == "_admin" && !matches!(r, DbReq::Kv(_) | DbReq::Get(..) | DbReq::Compact | DbReq::Transactions(..) | DbReq::Query(..)) {
                    continue;
                }
                if let DbReq::Kv(op) = &r {
                    used.insert((op.namespace.clone(), op.key.clone()));
                }
                for (c, docs) in [(Col::Item, &m), (Col::Named, &m), (Col::Raw, &m)] {
                    if let Some((id, doc)) = docs.col(c).iter().next() {
                        history.push((c, bonsaidb_core::document::Header { id: id.clone(), revision: doc.rev }));
                    }
                }
                compare(&sides, h, &Req::Db(r), d, ctx)?;
            }
            1 => {
                let ids: Vec<u64> = User::all(&sides[0].storage.admin()).headers().or_fail("users")?.iter().map(|h| h.id.deserialize().expect("HARNESS: id")).collect();
                let r = gen_req(s, &ids);
                // (databases of deleted handles: C16)
                compare(&sides, h, &r, "", ctx)?;
            }
            2 => {
                let u = s.draw(2);
                let how = match s.draw(3) {
                    0 => Login::Assume(IdentityReference::User(NamedReference::Key(u))),
                    1 => Login::Assume(IdentityReference::User(NamedReference::Name(format!("u{u}").into()))),
                    2 => Login::Assume(IdentityReference::Role(NamedReference::Name(format!("r{}", s.draw(2)).into()))),
                    _ => Login::Password(NamedReference::Key(u), if s.chance(1, 4) { "wrong".into() } else { format!("pw{u}") }),
                };
                ctx.log(format!("#{h}: {how:?}"));
                let mut want = None;
                for side in &mut sides {
                    let got = side.handles[h].login(&how);
                    let o = match &got {
                        Ok(h) => Out::Ok(format!("{:?}", h.session().map(|s| (s.authentication.clone(), granted(&s.permissions), s.id.is_some())))),
                        Err(e) => error(e),
                    };
                    if let Ok(h) = got {
                        side.handles.push(h);
                    }
                    match &want {
                        None => want = Some(o),
                        Some(w) => ensure_eq!(&o, w, "#{h}: {how:?}: {} (left), Storage (right)", side.what),
                    }
                }
                if matches!(want, Some(Out::Ok(_))) {
                    ctx.count("logins");
                }
            }
            _ if n > 1 => {
                let i = 1 + s.draw(n as u64 - 2) as usize;
                ctx.log(format!("dropping #{i}"));
                for side in &mut sides {
                    side.handles.remove(i);
                }
            }
            _ => {}
        }
    }
    let want = dump(&sides[0].storage, &used)?;
    for side in &sides[1..] {
        let got = dump(&side.storage, &used)?;
        for i in 0..want.len().max(got.len()) {
            ensure_eq!(got.get(i), want.get(i), "what is stored through {} (left) and Storage (right)", side.what);
        }
    }
    Ok(())
}
fn compare(sides: &[Side], h: usize, req: &Req, d: &str, ctx: &mut Ctx) -> Res {
    ctx.log(format!("#{h} {d}: {}", short(req)));
    let tx = matches!(req, Req::Db(DbReq::Transactions(..)));
    let mut want: Option<Out> = None;
    for side in sides {
        let got = normal(req, side.handles[h].run(req, d));
        if h == 0 && repeatable(req) {
            let again = normal(req, Handle::Blocking(side.storage.clone()).run(req, d));
            ensure_eq!(got, again, "{d}: {req:?}: through {} (left) and the storage behind it (right)", side.what);
        }
        match &want {
            None => want = Some(got),
            // (transaction ids depend on what happens in the background)
            Some(w) if tx => ensure!(std::mem::discriminant(w) == std::mem::discriminant(&got), "#{h} {d}: {req:?}: {} returned {got:?}, Storage {w:?}", side.what),
            Some(w) => ensure_eq!(&got, w, "#{h} {d}: {}: {} (left), Storage (right)", short(req), side.what),
        }
    }
    match want {
        Some(Out::Ok(_)) => {
            ctx.count("ok");
            ctx.nontrivial();
        }
        Some(Out::Denied(_)) => ctx.count("refused"),
        _ => ctx.count("errors"),
    }
    Ok(())
}

// ---------- custom APIs, many requests at once ----------

/// Answers with its contents after a delay.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Echo {
    pub data: Vec<u8>,
    /// Milliseconds.
    pub delay: u64,
    pub fail: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Refused(pub Vec<u8>);
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("refused")
    }
}
impl Api for Echo {
    type Response = Vec<u8>;
    type Error = Refused;
    fn name() -> ApiName {
        ApiName::new("vh", "echo")
    }
}
#[derive(Debug)]
pub struct EchoHandler;
#[async_trait]
impl Handler<Echo> for EchoHandler {
    async fn handle(_: HandlerSession<'_>, request: Echo) -> HandlerResult<Echo> {
        if request.delay > 0 {
            tokio::time::sleep(Duration::from_millis(request.delay)).await;
        }
        if request.fail {
            Err(HandlerError::Api(Refused(request.data)))
        } else {
            Ok(request.data)
        }
    }
}

#[derive(Clone, Debug)]
enum Ask {
    Echo { data: Vec<u8>, delay: u64, fail: bool },
    /// Without waiting for the answer.
    Forget { data: Vec<u8>, delay: u64 },
    Get(u64),
    SetKey(u64),
    GetKey,
    Increment,
    Overwrite(Vec<u8>),
    Missing,
    WhoAmI,
}
fn big(s: &mut Source) -> Vec<u8> {
    let n = match s.weighted(&[12, 4, 2, 1]) {
        0 => s.draw(20),
        1 => s.draw(2_000),
        2 => 60_000 + s.draw(10_000),
        _ => s.draw(600_000),
    };
    let b = s.draw(255) as u8;
    (0..n).map(|i| b.wrapping_add((i % 251) as u8)).collect()
}
fn concurrent(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let (limit, workers) = (1 + s.draw(15) as usize, 1 + s.draw(15) as usize);
    let quic = s.bool();
    let mut failed = None;
    let r = Remote::start(config(&scratch.path("s")), DefaultPermissions::AllowAll, quic, |c| {
        c.client_simultaneous_request_limit(limit).request_workers(workers).with_api::<EchoHandler, Echo>().unwrap_or_else(|e| {
            failed = Some(format!("{e:?}"));
            panic!("HARNESS: {failed:?}")
        })
    })?;
    let st = &r.storage;
    st.create_database::<Main>("db", false).or_fail("creating a database")?;
    let db = st.database::<Main>("db").or_fail("opening")?;
    // documents to read
    let docs: Vec<Vec<u8>> = s.list(1, 4, 2, big);
    for (i, d) in docs.iter().enumerate() {
        exec_db(&db, &DbReq::Apply(vec![Op::Overwrite { col: Col::Raw, id: raw_id(i as u64), contents: d.clone() }]));
    }
    let users: Vec<u64> = (0..2).map(|u| st.create_user(&format!("u{u}"))).collect::<Result<_, _>>().or_fail("users")?;
    PermissionGroup { name: "all".into(), statements: vec![Statement::for_any().allowing_all()] }.push_into(&st.admin()).or_fail("group")?;
    for u in &users {
        st.add_permission_group_to_user(*u, "all").or_fail("group")?;
    }
    let client = r.client(quic)?;
    let blocking = s.bool();
    let tasks: Vec<(u64, Vec<Ask>)> = s.list(2, 12, 6, |s| {
        (
            s.draw(2),
            s.list(1, 8, 4, |s| {
                let delay = if s.chance(1, 3) { s.draw(6) } else { 0 };
                match s.draw(11) {
                    0..=2 => Ask::Echo { data: big(s), delay, fail: s.chance(1, 5) },
                    3 => Ask::Forget { data: big(s), delay },
                    4 | 5 => Ask::Get(s.draw(4)),
                    6 => Ask::SetKey(s.draw(9)),
                    7 => Ask::GetKey,
                    8 => Ask::Increment,
                    9 => Ask::Overwrite(big(s)),
                    10 => Ask::Missing,
                    _ => Ask::WhoAmI,
                }
            }),
        )
    });
    ctx.log(format!("limit {limit}, {workers} workers, {}, {}", if quic { "QUIC" } else { "WebSocket" }, if blocking { "blocking" } else { "async" }));
    for t in &tasks {
        ctx.log(format!("as {}: {}", t.0, short(&t.1)));
    }
    // sessions on the same connection
    let sessions: Vec<AsyncClient> = rt().block_on(async {
        let mut v = vec![client.clone()];
        for u in &users {
            v.push(client.assume_identity(IdentityReference::user(*u).or_fail("id")?).await.or_fail("assuming")?);
        }
        Ok::<_, Failure>(v)
    })?;
    let one = |n: usize, who: u64, asks: &[Ask], client: &AsyncClient, blocking: bool| -> Res<u64> {
        let mut key = Output::Value(None);
        let mut increments = 0u64;
        let me = format!("k{n}");
        let b = BlockingClient::from(client.clone());
        let bdb = b.database::<Main>("db").or_fail("database")?;
        let adb = rt().block_on(client.database::<Main>("db")).or_fail("database")?;
        macro_rules! ask {
            ($b:expr, $a:expr) => {
                if blocking {
                    $b
                } else {
                    rt().block_on($a)
                }
            };
        }
        let kv = |op: KeyOperation| ask!(bdb.execute_key_operation(op), adb.execute_key_operation(op));
        let op = |command| KeyOperation { namespace: Some("c".into()), key: me.clone(), command };
        for a in asks {
            match a {
                Ask::Echo { data, delay, fail } => {
                    let e = Echo { data: data.clone(), delay: *delay, fail: *fail };
                    let got = ask!(b.send_api_request(&e), client.send_api_request(&e));
                    match (got, fail) {
                        (Ok(got), false) => ensure!(&got == data, "task {n}: echo of {} returned {}", short(data), short(&got)),
                        (Err(bonsaidb::client::ApiError::Api(Refused(got))), true) => ensure!(&got == data, "task {n}: refusal of {} returned {}", short(data), short(&got)),
                        (got, _) => fail!("task {n}: {a:?} returned {}", short(&got)),
                    }
                }
                Ask::Forget { data, delay } => {
                    b.invoke_api_request(&Echo { data: data.clone(), delay: *delay, fail: false }).or_fail("invoke")?;
                }
                Ask::Get(i) => {
                    let id = raw_id(*i);
                    let got = ask!(bdb.get_from_collection(id.clone(), &Col::Raw.name()), adb.get_from_collection(id, &Col::Raw.name())).or_fail("get")?;
                    let got = got.map(|d| d.contents.to_vec());
                    ensure!(got.as_ref() == docs.get(*i as usize), "task {n}: document {i} is {}, got {}", short(&docs.get(*i as usize)), short(&got));
                }
                Ask::SetKey(v) => {
                    let set = Command::Set(SetCommand { value: Value::Numeric(Numeric::UnsignedInteger(*v)), expiration: None, keep_existing_expiration: false, check: None, return_previous_value: true });
                    let got = kv(op(set)).or_fail("set")?;
                    ensure_eq!(format!("{got:?}"), format!("{key:?}"), "task {n}: previous value of its key");
                    key = Output::Value(Some(Value::Numeric(Numeric::UnsignedInteger(*v))));
                }
                Ask::GetKey => {
                    let got = kv(op(Command::Get { delete: false })).or_fail("get")?;
                    ensure_eq!(format!("{got:?}"), format!("{key:?}"), "task {n}: value of its key");
                }
                Ask::Increment => {
                    let got = kv(KeyOperation { namespace: Some("c".into()), key: "shared".into(), command: Command::Increment { amount: Numeric::UnsignedInteger(1), saturating: true } }).or_fail("increment")?;
                    ensure!(matches!(got, Output::Value(Some(Value::Numeric(Numeric::UnsignedInteger(_))))), "task {n}: increment returned {got:?}");
                    increments += 1;
                }
                Ask::Overwrite(contents) => {
                    let mut tx = Transaction::new();
                    tx.push(Operation::overwrite(Col::Raw.name(), raw_id(100 + n as u64), contents.clone()));
                    ask!(bdb.apply_transaction(tx), adb.apply_transaction(tx)).or_fail("overwrite")?;
                    let id = raw_id(100 + n as u64);
                    let got = ask!(bdb.get_from_collection(id.clone(), &Col::Raw.name()), adb.get_from_collection(id, &Col::Raw.name())).or_fail("get")?;
                    ensure!(got.as_ref().map(|d| d.contents.as_slice()) == Some(&contents[..]), "task {n}: wrote {}, read {}", short(contents), short(&got));
                }
                Ask::Missing => {
                    let got = rt().block_on(async { client.database::<Main>("missing").await.or_fail("database") })?;
                    let got = rt().block_on(got.last_transaction_id());
                    ensure!(matches!(&got, Err(bonsaidb_core::Error::DatabaseNotFound(n)) if n == "missing"), "task {n}: a missing database: {got:?}");
                }
                Ask::WhoAmI => {
                    let want = if who == 0 { None } else { Some(users[who as usize - 1]) };
                    let got = client.session().and_then(|s| s.identity().map(|i| format!("{i:?}")));
                    ensure_eq!(got.is_some(), want.is_some(), "task {n}: identity of its session");
                }
            }
        }
        Ok(increments)
    };
    let results: Vec<Res<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = tasks
            .iter()
            .enumerate()
            .map(|(n, (who, asks))| {
                let c = sessions[*who as usize].clone();
                let one = &one;
                sc.spawn(move || catch(|| one(n, *who, asks, &c, blocking)).unwrap_or_else(|e| Err(Failure::sig("panic", e))))
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("HARNESS: thread")).collect()
    });
    let mut total = 0;
    for r in results {
        total += r?;
    }
    ctx.nontrivial();
    ctx.add("requests", tasks.iter().map(|t| t.1.len() as u64).sum());
    if total > 0 {
        let got = db.with_key_namespace("c").get_key("shared").query().or_fail("get")?;
        ensure_eq!(got, Some(Value::Numeric(Numeric::UnsignedInteger(total))), "the counter all tasks incremented");
    }
    Ok(())
}
pub fn raw_id(i: u64) -> DocumentId {
    DocumentId::try_from(&i.to_be_bytes()[..]).expect("HARNESS: id")
}

// ---------- lost connections ----------

fn reconnect(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let quic = s.chance(1, 3);
    let start = |first: bool| -> Res<Remote> {
        let perms = DefaultPermissions::Permissions(
            vec![Statement::for_resource(bonsaidb_resource_name()).allowing(&BonsaiAction::Server(ServerAction::Connect)).allowing(&BonsaiAction::Server(ServerAction::ListDatabases)), {
                let mut s = Statement::for_any().allowing(&BonsaiAction::Server(ServerAction::AssumeIdentity));
                s.configuration = None;
                s
            }]
            .into(),
        );
        let r = Remote::start(config(&scratch.path("s")), perms, quic, |c| c)?;
        if first {
            r.storage.create_database::<Main>("db", false).or_fail("creating a database")?;
            let g = PermissionGroup { name: "all".into(), statements: vec![Statement::for_any().allowing_all()] }.push_into(&r.storage.admin()).or_fail("group")?;
            let u = r.storage.create_user("u").or_fail("user")?;
            r.storage.add_permission_group_to_user(u, g.header.id).or_fail("group")?;
        }
        Ok(r)
    };
    let r = start(true)?;
    // a proxy that can drop connections
    let proxy = if quic { None } else { Some(Proxy::start(r.tcp)?) };
    let client = match &proxy {
        Some(p) => AsyncClient::build(p.url()).with_runtime(rt().handle().clone()).with_request_timeout(Duration::from_secs(40)).build().or_fail("client")?,
        None => r.client(true)?,
    };
    let mut user: Option<AsyncClient> = None;
    // whether the session was made on the current connection
    let mut current = false;
    let mut dropped = false;
    let mut counter = 0u64;
    let mut unsure = 0u64;
    for _ in 0..4 + s.draw(12) {
        let what = s.weighted(&[4, 5, 3, 3]);
        if what == 3 {
            if let Some(p) = &proxy {
                ctx.log("dropping the connections");
                ctx.count("drops");
                p.cut()?;
                dropped = true;
                ctx.nontrivial();
            }
            continue;
        }
        let res: Result<String, bonsaidb_core::Error> = match what {
            0 => {
                ctx.log("listing databases");
                rt().block_on(client.list_databases()).map(|d| d.iter().any(|d| d.name == "db").to_string())
            }
            1 => match &user {
                None => continue,
                Some(u) => {
                    ctx.log("incrementing as the user");
                    let op = KeyOperation { namespace: None, key: "n".into(), command: Command::Increment { amount: Numeric::UnsignedInteger(1), saturating: true } };
                    let r = rt().block_on(async { u.database::<Main>("db").await?.execute_key_operation(op).await });
                    match &r {
                        Ok(Output::Value(Some(Value::Numeric(Numeric::UnsignedInteger(v))))) => {
                            ensure!(current && !dropped, "a session of a lost connection is still in effect");
                            ensure!(*v > counter && *v <= counter + unsure + 1, "incremented {counter} to {v} (with up to {unsure} increments that reported errors)");
                            counter = *v;
                            unsure = 0;
                        }
                        Ok(v) => fail!("increment returned {v:?}"),
                        Err(bonsaidb_core::Error::PermissionDenied(_)) => ensure!(!current || dropped, "refused with a current session"),
                        Err(_) => unsure += 1,
                    }
                    match r {
                        Err(bonsaidb_core::Error::PermissionDenied(_)) => Ok("true".to_string()),
                        r => r.map(|_| "true".to_string()),
                    }
                }
            },
            _ => {
                ctx.log("assuming the identity of the user");
                let r = rt().block_on(client.assume_identity(IdentityReference::user("u").or_fail("id")?));
                match r {
                    Ok(u) => {
                        ensure!(u.session().is_some(), "no session after assuming an identity");
                        user = Some(u);
                        current = true;
                        Ok("true".to_string())
                    }
                    Err(e) => Err(e),
                }
            }
        };
        match res {
            Ok(ok) => {
                ensure_eq!(ok.as_str(), "true", "answer");
                if dropped && what != 2 {
                    current = false;
                }
                dropped = false;
            }
            Err(e) => {
                ensure!(dropped, "a request failed on an undisturbed connection: {e:?}");
                ctx.count("errors after a drop");
                ensure!(!format!("{e:?}").contains("Timeout"), "a request was never answered after the connection was lost: {e:?}");
                // at most one request sees the error of a lost connection...
                current = false;
                let mut left = 3;
                loop {
                    let r = rt().block_on(client.list_databases());
                    match r {
                        Ok(_) => break,
                        Err(e) if left == 0 => fail!("the client does not reconnect: {e:?}"),
                        Err(_) => left -= 1,
                    }
                }
                dropped = false;
            }
        }
    }
    Ok(())
}
/// Forwards connections until told to cut them.
pub struct Proxy {
    addr: std::net::SocketAddr,
    generation: tokio::sync::watch::Sender<u64>,
    active: Arc<AtomicU64>,
    task: tokio::task::JoinHandle<()>,
}
impl Proxy {
    pub fn start(to: std::net::SocketAddr) -> Res<Self> {
        let (generation, watch) = tokio::sync::watch::channel(0);
        let active = Arc::new(AtomicU64::new(0));
        let count = active.clone();
        rt().block_on(async {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.or_env("proxy")?;
            let addr = l.local_addr().or_env("proxy")?;
            let task = tokio::spawn(async move {
                while let Ok((mut a, _)) = l.accept().await {
                    let mut watch = watch.clone();
                    watch.borrow_and_update();
                    let count = count.clone();
                    count.fetch_add(1, Ordering::SeqCst);
                    tokio::spawn(async move {
                        if let Ok(mut b) = tokio::net::TcpStream::connect(to).await {
                            tokio::select! {
                                _ = tokio::io::copy_bidirectional(&mut a, &mut b) => {}
                                _ = watch.changed() => {}
                            }
                        }
                        drop(a);
                        count.fetch_sub(1, Ordering::SeqCst);
                    });
                }
            });
            Ok(Proxy { addr, generation, active, task })
        })
    }
    pub fn url(&self) -> bonsaidb::client::url::Url {
        bonsaidb::client::url::Url::parse(&format!("ws://{}", self.addr)).expect("HARNESS: url")
    }
    pub fn cut(&self) -> Res {
        self.generation.send_modify(|g| *g += 1);
        for _ in 0..10_000 {
            if self.active.load(Ordering::SeqCst) == 0 {
                return Ok(());
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        Err(Failure::env("the proxy's connections do not end"))
    }
}
impl Drop for Proxy {
    fn drop(&mut self) {
        self.task.abort();
        self.generation.send_modify(|g| *g += 1);
    }
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        level: "exploration",
        rule: "at least one request succeeded on every interface",
        assumptions: &[
            "Databases are opened with the schema they were created with (a client names collections and views; whether they are those of the schema it was opened with is decided by the server).",
            "Transaction ids, revisions of users and the databases and schemas a server adds are not compared.",
        ],
        sections: vec![
            section("histories", 600, 30_000, interfaces).threads(8),
            section("concurrent", 200, 10_000, concurrent).threads(8),
            section("reconnect", 200, 10_000, reconnect).threads(8),
        ],
    }
}
