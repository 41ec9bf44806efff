//! C22: clients which do not follow the protocol.
use std::collections::{BTreeMap, HashMap};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use bonsaidb::client::fabruic;
use bonsaidb::client::AsyncClient;
use bonsaidb::server::api::{Handler, HandlerResult, HandlerSession};
use bonsaidb::server::DefaultPermissions;
use bonsaidb_core::admin::{AuthenticationToken, PermissionGroup, Role, User};
use bonsaidb_core::api::{Api, ApiName, Infallible};
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::async_trait::async_trait;
use bonsaidb_core::connection::{
    AccessPolicy, AsyncLowLevelConnection, AsyncStorageConnection, Authentication, AuthenticationMethod, Database, HasSession, IdentityReference,
    LowLevelConnection, Range, SensitiveString, Session, SessionAuthentication, SessionId, Sort, StorageConnection, TokenChallengeAlgorithm,
};
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::key::time::TimestampAsNanoseconds;
use bonsaidb_core::keyvalue::{AsyncKeyValue, Command, KeyOperation, KeyValue};
use bonsaidb_core::networking::*;
use bonsaidb_core::permissions::bonsai::*;
use bonsaidb_core::permissions::{Permissions, Statement};
use bonsaidb_core::pubsub::{AsyncPubSub, AsyncSubscriber};
use bonsaidb_core::schema::{Collection as _, NamedReference, Qualified, Schema, SerializedCollection};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_core::Error;
use futures::{SinkExt, StreamExt};
use serde::{Deserialize, Serialize};
use tokio::io::AsyncWriteExt;
use tokio::net::{TcpStream, UdpSocket};
use tokio_tungstenite::tungstenite::{self, Message};
use tokio_tungstenite::WebSocketStream;

use crate::denied::rt;
use crate::engine::*;
use crate::fix::*;
use crate::iface::{raw_id, Echo, EchoHandler};
use crate::remote::*;
use crate::{ensure, ensure_eq, fail};

const WAIT: Duration = Duration::from_secs(30);

/// An api whose handler panics.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Boom;
impl Api for Boom {
    type Response = ();
    type Error = Infallible;
    fn name() -> ApiName {
        ApiName::new("vh", "boom")
    }
}
#[derive(Debug)]
struct BoomHandler;
#[async_trait]
impl Handler<Boom> for BoomHandler {
    async fn handle(_: HandlerSession<'_>, _: Boom) -> HandlerResult<Boom> {
        panic!("boom");
    }
}

#[derive(Default)]
struct Answers {
    by_id: HashMap<u32, Payload>,
    twice: Option<u32>,
    /// Messages to subscribers.
    messages: Vec<Payload>,
    closed: bool,
}
enum Wire {
    Ws(futures::stream::SplitSink<WebSocketStream<TcpStream>, Message>),
    Quic { sender: fabruic::Sender<Payload>, _connection: fabruic::Connection<()>, _endpoint: fabruic::Endpoint },
}
/// A connection which says whatever it likes.
struct Hostile {
    wire: Wire,
    answers: Arc<Mutex<Answers>>,
    reader: tokio::task::JoinHandle<()>,
    next: u32,
    /// Sessions of this connection.
    sessions: Vec<SessionId>,
    silent: bool,
}
impl Drop for Hostile {
    fn drop(&mut self) {
        self.reader.abort();
    }
}
fn handshake(addr: SocketAddr, protocol: Option<&str>) -> tungstenite::handshake::client::Request {
    let mut r = tungstenite::http::Request::get(format!("ws://{addr}"))
        .header("Sec-WebSocket-Version", "13")
        .header("Sec-WebSocket-Key", tungstenite::handshake::client::generate_key())
        .header("Host", "localhost")
        .header("Connection", "Upgrade")
        .header("Upgrade", "websocket");
    if let Some(p) = protocol {
        r = r.header("Sec-WebSocket-Protocol", p);
    }
    r.body(()).expect("HARNESS: request")
}
fn keep(answers: &Mutex<Answers>, p: Payload) {
    let mut a = answers.lock().unwrap();
    match p.id {
        Some(id) => {
            if a.by_id.insert(id, p).is_some() {
                a.twice = Some(id);
            }
        }
        None => a.messages.push(p),
    }
}
async fn dial_ws(addr: SocketAddr) -> Result<Hostile, String> {
    let stream = TcpStream::connect(addr).await.map_err(|e| e.to_string())?;
    let (ws, _) = tokio::time::timeout(WAIT, tokio_tungstenite::client_async(handshake(addr, Some(CURRENT_PROTOCOL_VERSION)), stream))
        .await
        .map_err(|_| "no answer to the websocket handshake".to_string())?
        .map_err(|e| e.to_string())?;
    let (sink, mut stream) = ws.split();
    let answers = Arc::new(Mutex::new(Answers::default()));
    let a = answers.clone();
    let reader = tokio::spawn(async move {
        while let Some(Ok(m)) = stream.next().await {
            if let Message::Binary(b) = m {
                if let Ok(p) = bincode::deserialize::<Payload>(&b) {
                    keep(&a, p);
                }
            }
        }
        a.lock().unwrap().closed = true;
    });
    Ok(Hostile { wire: Wire::Ws(sink), answers, reader, next: 0, sessions: vec![], silent: false })
}
async fn quic_connection(cert: &fabruic::Certificate, port: u16) -> Result<(fabruic::Endpoint, fabruic::Connection<()>), String> {
    let mut b = fabruic::Endpoint::builder();
    b.set_max_idle_timeout(None).map_err(|e| format!("{e:?}"))?;
    b.set_protocols([CURRENT_PROTOCOL_VERSION.as_bytes().to_vec()]);
    let e = b.build().map_err(|e| format!("{e:?}"))?;
    let connecting = e.connect_pinned(format!("bonsaidb://localhost:{port}"), cert, None).await.map_err(|e| format!("{e:?}"))?;
    let c = tokio::time::timeout(WAIT, connecting.accept::<()>()).await.map_err(|_| "no answer to the QUIC handshake".to_string())?.map_err(|e| format!("{e:?}"))?;
    Ok((e, c))
}
async fn dial_quic(r: &Remote) -> Result<Hostile, String> {
    let (addr, cert) = r.quic().ok_or("no quic")?;
    let (endpoint, connection) = quic_connection(&cert, addr.port()).await?;
    let (sender, mut receiver) = connection.open_stream::<Payload, Payload>(&()).await.map_err(|e| format!("{e:?}"))?;
    let answers = Arc::new(Mutex::new(Answers::default()));
    let a = answers.clone();
    let reader = tokio::spawn(async move {
        while let Some(Ok(p)) = receiver.next().await {
            keep(&a, p);
        }
        a.lock().unwrap().closed = true;
    });
    Ok(Hostile { wire: Wire::Quic { sender, _connection: connection, _endpoint: endpoint }, answers, reader, next: 0, sessions: vec![], silent: false })
}
impl Hostile {
    fn send(&mut self, p: &Payload) {
        match &mut self.wire {
            Wire::Ws(w) => {
                let b = bincode::serialize(p).expect("HARNESS: bincode");
                let _ = rt().block_on(w.send(Message::Binary(b)));
            }
            Wire::Quic { sender, .. } => {
                let _ = sender.send(p);
            }
        }
    }
    fn message(&mut self, m: Message) {
        if let Wire::Ws(w) = &mut self.wire {
            let _ = rt().block_on(w.send(m));
        }
    }
    fn ask(&mut self, session_id: Option<SessionId>, name: ApiName, value: Result<Bytes, Error>) -> u32 {
        self.next += 1;
        let id = self.next;
        self.send(&Payload { session_id, id: Some(id), name, value });
        id
    }
    fn answer(&self, id: u32, what: &str) -> Res<Payload> {
        let start = Instant::now();
        loop {
            {
                let mut a = self.answers.lock().unwrap();
                if let Some(t) = a.twice {
                    fail!("{what}: request {t} was answered twice");
                }
                if let Some(p) = a.by_id.remove(&id) {
                    return Ok(p);
                }
                ensure!(!a.closed, "{what}: the connection was closed");
            }
            ensure!(start.elapsed() < WAIT, "{what}: never answered");
            std::thread::sleep(Duration::from_micros(300));
        }
    }
}
fn body<A: Api>(a: &A) -> (ApiName, Vec<u8>) {
    (A::name(), pot::to_vec(a).expect("HARNESS: pot"))
}
/// A well-formed request, and whether the default permissions refuse it.
fn gen_request(s: &mut Source, foreign: &[u64], sessions: &[SessionId]) -> (ApiName, Vec<u8>, bool, String) {
    let d = s.pick(&["db", "db", "db", "lobby", "lobby", "_admin", "_hosted", "nope", "", "db\0", "../db"]).to_string();
    let refused = d != "lobby";
    let collection = if d == "_admin" { User::collection_name() } else { s.pick(&[Col::Raw, Col::Item, Col::Named]).name() };
    let view = s.pick(&VIEWS).name();
    let id = raw_id(s.draw(5));
    let order = if s.bool() { Sort::Ascending } else { Sort::Descending };
    let sub = if foreign.is_empty() || s.chance(1, 3) { s.interesting_u64(u64::MAX) } else { *s.pick(foreign) };
    let user = |s: &mut Source| if s.bool() { NamedReference::from("victim").into_owned() } else { NamedReference::Key(s.draw(3)) };
    let access_policy = AccessPolicy::UpdateBefore;
    let list = List { database: d.clone(), collection: collection.clone(), ids: Range::from(..), order, limit: if s.bool() { Some(s.draw(3) as u32) } else { None } };
    let query = Query { database: d.clone(), view: view.clone(), key: None, order, limit: None, access_policy };
    let reduce = Reduce { database: d.clone(), view: view.clone(), key: None, access_policy };
    let topic = Bytes::from(s.pick(&[&b"t"[..], b"", b"u"]).to_vec());
    let kv = |command| KeyOperation { namespace: None, key: "k".into(), command };
    let password = SensitiveString("p".into());
    let ((name, b), refused) = match s.below(33) {
        0 => (body(&CreateDatabase { database: Database { name: "made".into(), schema: Main::schema_name() }, only_if_needed: s.bool() }), true),
        1 => (body(&DeleteDatabase { name: d.clone() }), refused),
        2 => (body(&ListDatabases), true),
        3 => (body(&ListAvailableSchemas), true),
        4 => (body(&CreateUser { username: "made".into() }), true),
        5 => (body(&DeleteUser { user: user(s) }), true),
        6 => (body(&SetUserPassword { user: user(s), password }), true),
        7 => (body(&Authenticate { authentication: Authentication::Password { user: user(s), password } }), true),
        8 => (
            body(&Authenticate {
                authentication: Authentication::Token {
                    id: s.draw(3),
                    now: if s.bool() { TimestampAsNanoseconds::now() } else { pot::from_slice(&pot::to_vec(&0_i64).expect("HARNESS: pot")).expect("HARNESS: timestamp") },
                    now_hash: Bytes::from(s.bytes(33, 32)),
                    algorithm: TokenChallengeAlgorithm::Blake3,
                },
            }),
            true,
        ),
        9 => (body(&Authenticate { authentication: Authentication::TokenChallengeResponse(Bytes::from(s.bytes(33, 32))) }), true),
        10 => (body(&AssumeIdentity(IdentityReference::User(user(s)))), true),
        11 => {
            let x = if sessions.is_empty() || s.chance(1, 4) { SessionId(s.interesting_u64(u64::MAX)) } else { *s.pick(sessions) };
            (body(&LogOutSession(x)), false)
        }
        12 => (body(&AlterUserPermissionGroupMembership { user: user(s), group: NamedReference::from("all").into_owned(), should_be_member: s.bool() }), true),
        13 => (body(&AlterUserRoleMembership { user: user(s), role: NamedReference::from("r").into_owned(), should_be_member: s.bool() }), true),
        14 => (body(&Get { database: d.clone(), collection, id }), refused),
        15 => (body(&GetMultiple { database: d.clone(), collection, ids: vec![id] }), refused),
        16 => (body(&list), refused),
        17 => (body(&ListHeaders(list)), refused),
        18 => (body(&Count { database: d.clone(), collection, ids: Range::from(..) }), refused),
        19 => (body(&query), refused),
        20 => (body(&QueryWithDocs(query)), refused),
        21 => (body(&reduce), refused),
        22 => (body(&ReduceGrouped(reduce)), refused),
        23 => (body(&DeleteDocs { database: d.clone(), view, key: None, access_policy }), refused),
        24 => {
            let op = match s.below(3) {
                0 => Operation::overwrite(Col::Raw.name(), id, Bytes::from(vec![6, 6, 6])),
                1 => Operation::insert(collection, None, Bytes::from(vec![6, 6, 6])),
                _ => Operation::delete(Col::Raw.name(), bonsaidb_core::document::Header { id, revision: bonsaidb_core::document::Revision::new(b"x") }),
            };
            (body(&ApplyTransaction { database: d.clone(), transaction: Transaction { operations: vec![op] } }), refused)
        }
        25 => (body(&ListExecutedTransactions { database: d.clone(), starting_id: None, result_limit: None }), refused),
        26 => (body(&LastTransactionId { database: d.clone() }), refused),
        // subscribing to topics needs permission, having a subscriber does not
        27 => (body(&CreateSubscriber { database: d.clone() }), refused),
        28 => (body(&Publish { database: d.clone(), topic, payload: Bytes::from(vec![6]) }), refused),
        29 => (body(&PublishToAll { database: d.clone(), topics: vec![topic], payload: Bytes::from(vec![6]) }), refused),
        // (ids of subscribers of this very connection are possible in the lobby)
        30 => (body(&SubscribeTo { database: d.clone(), subscriber_id: sub, topic }), foreign.contains(&sub)),
        31 => match s.below(2) {
            0 => (body(&UnsubscribeFrom { database: d.clone(), subscriber_id: sub, topic }), foreign.contains(&sub)),
            _ => (body(&UnregisterSubscriber { database: d.clone(), subscriber_id: sub }), foreign.contains(&sub)),
        },
        _ => match s.below(4) {
            0 => (body(&ExecuteKeyOperation { database: d.clone(), op: kv(Command::Get { delete: s.bool() }) }), refused),
            1 => (body(&ExecuteKeyOperation { database: d.clone(), op: kv(Command::Delete) }), refused),
            2 => (body(&CompactKeyValueStore { database: d.clone() }), refused),
            _ => (body(&Compact { database: d.clone() }), refused),
        },
    };
    let what = format!("{name} in {d:?}");
    (name, b, refused, what)
}
/// Whether an answer is a refusal, without having answered anything.
fn is_refusal(p: &Payload) -> bool {
    match &p.value {
        Err(_) => true,
        // Result<_, A::Error>: an externally tagged enum
        Ok(b) => pot::from_slice::<Result<serde::de::IgnoredAny, Error>>(b).map_or(true, |r| r.is_err()),
    }
}

/// A client following the protocol.
struct Victim {
    client: AsyncClient,
    db: bonsaidb::client::AsyncRemoteDatabase,
    n: u64,
    docs: BTreeMap<u64, Vec<u8>>,
    counter: u64,
    sub: bonsaidb::client::AsyncRemoteSubscriber,
    _public: AsyncClient,
}
impl Victim {
    fn new(r: &Remote, quic: bool, n: u64, token: &(u64, String)) -> Res<Self> {
        let public = r.builder(quic, WAIT).build().or_fail("building a client")?;
        let client = rt().block_on(public.authenticate_with_token(token.0, &SensitiveString(token.1.clone()))).or_fail("authenticating")?;
        let db = rt().block_on(client.database::<Main>("db")).or_fail("database")?;
        let sub = rt().block_on(db.create_subscriber()).or_fail("subscriber")?;
        rt().block_on(sub.subscribe_to_bytes(format!("t{n}").into_bytes())).or_fail("subscribe")?;
        Ok(Victim { client, db, n, docs: BTreeMap::new(), counter: 0, sub, _public: public })
    }
    fn step(&mut self, s: &mut Source) -> Res {
        let n = self.n;
        match s.below(5) {
            0 => {
                let (i, c) = (n * 10 + s.draw(3), s.bytes(200, 20));
                rt().block_on(self.db.apply_transaction(Transaction::from(Operation::overwrite(Col::Raw.name(), raw_id(i), Bytes::from(c.clone()))))).or_fail("the other client's overwrite")?;
                self.docs.insert(i, c);
            }
            1 => {
                let i = n * 10 + s.draw(3);
                let got = rt().block_on(self.db.get_from_collection(raw_id(i), &Col::Raw.name())).or_fail("the other client's get")?;
                ensure_eq!(got.map(|d| d.contents.to_vec()), self.docs.get(&i).cloned(), "document {i} read by the other client");
            }
            2 => {
                let got: u64 = rt().block_on(async { self.db.increment_key_by(format!("c{n}"), 1_u64).await }).or_fail("the other client's increment")?;
                self.counter += 1;
                ensure_eq!(got, self.counter, "the other client's counter");
            }
            3 => {
                let p = s.bytes(20, 5);
                rt().block_on(self.db.publish_bytes(format!("t{n}").into_bytes(), p.clone())).or_fail("the other client's publish")?;
                let got = rt().block_on(async { tokio::time::timeout(WAIT, self.sub.receiver().receive_async()).await });
                match got {
                    Ok(Ok(m)) => {
                        ensure_eq!((m.topic.to_vec(), m.payload.to_vec()), (format!("t{n}").into_bytes(), p), "message received by the other client");
                    }
                    e => fail!("the other client's message never arrived: {e:?}"),
                }
            }
            _ => {
                let data = s.bytes(50, 10);
                let got = rt().block_on(self.client.send_api_request(&Echo { data: data.clone(), delay: 0, fail: false }));
                match got {
                    Ok(got) => ensure_eq!(got, data, "the other client's echo"),
                    Err(e) => fail!("the other client's echo: {e:?}"),
                }
            }
        }
        Ok(())
    }
}
fn admin_state(r: &Remote) -> Res<String> {
    let a = r.storage.admin();
    let mut dbs: Vec<_> = r.storage.list_databases().or_fail("list")?.into_iter().map(|d| format!("{d:?}")).filter(|d| !d.contains("lobby")).collect();
    dbs.sort();
    Ok(format!(
        "{dbs:?} {:?} {:?} {:?} {:?}",
        User::all(&a).query().or_fail("users")?.iter().map(|d| (d.header.id, d.header.revision.id, d.contents.clone())).map(|d| format!("{:?}", d)).collect::<Vec<_>>(),
        PermissionGroup::all(&a).query().or_fail("groups")?.len(),
        Role::all(&a).query().or_fail("roles")?.len(),
        AuthenticationToken::all(&a).query().or_fail("tokens")?.len(),
    ))
}
/// Forwards the first datagrams of a client to the server, and nothing else.
async fn stall(to: SocketAddr, datagrams: u64) -> Result<u16, String> {
    let front = UdpSocket::bind("[::]:0").await.map_err(|e| e.to_string())?;
    let port = front.local_addr().map_err(|e| e.to_string())?.port();
    let back = UdpSocket::bind("[::]:0").await.map_err(|e| e.to_string())?;
    tokio::spawn(async move {
        let mut buf = vec![0; 65_536];
        for _ in 0..datagrams {
            let Ok(Ok((n, _))) = tokio::time::timeout(WAIT, front.recv_from(&mut buf)).await else { return };
            let _ = back.send_to(&buf[..n], ("::1", to.port())).await;
        }
    });
    Ok(port)
}
/// The files below `root` which this process has open.
fn open_files(root: &std::path::Path) -> usize {
    let Ok(dir) = std::fs::read_dir("/proc/self/fd") else { return 0 };
    dir.filter_map(|e| std::fs::read_link(e.ok()?.path()).ok()).filter(|p| p.starts_with(root)).count()
}
fn attacks(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let quic = s.chance(1, 3);
    let (workers, limit) = (1 + s.below(4), 1 + s.below(6));
    let statements = vec![
        Statement::for_any().allowing(&BonsaiAction::Server(ServerAction::Connect)),
        Statement::for_any().allowing(&BonsaiAction::Server(ServerAction::Authenticate(AuthenticationMethod::Token))),
        Statement::for_resource(database_resource_name("lobby")).allowing_all(),
    ];
    let st = config(&scratch.path("s"));
    let r = Remote::start(st, DefaultPermissions::Permissions(Permissions::from(statements)), quic, |c| {
        c.request_workers(workers)
            .client_simultaneous_request_limit(limit)
            .with_api::<EchoHandler, Echo>()
            .expect("HARNESS: api")
            .with_api::<BoomHandler, Boom>()
            .expect("HARNESS: api")
    })?;
    r.storage.create_database::<Main>("db", false).or_fail("creating a database")?;
    r.storage.create_database::<Main>("lobby", false).or_fail("creating a database")?;
    let mut tokens = vec![];
    PermissionGroup { name: "all".into(), statements: vec![Statement::for_any().allowing_all()] }.push_into(&r.storage.admin()).or_fail("group")?;
    for (n, name) in ["victim", "weak"].into_iter().enumerate() {
        let u = r.storage.create_user(name).or_fail("user")?;
        let t = AuthenticationToken::create(&IdentityReference::User(NamedReference::Key(u)), &r.storage.admin()).or_fail("token")?;
        tokens.push((t.header.id, t.contents.token.0.clone()));
        if n == 0 {
            r.storage.add_permission_group_to_user(u, "all").or_fail("membership")?;
        }
    }
    let mut victims = vec![];
    for n in 0..1 + s.draw(1) {
        victims.push(Victim::new(&r, quic && s.bool(), n, &tokens[0])?);
    }
    let mut sessions: Vec<SessionId> = victims.iter().filter_map(|v| v.client.session().and_then(|x| x.id)).collect();
    let foreign: Vec<u64> = victims
        .iter()
        .filter_map(|v| {
            let text = format!("{:?}", v.sub);
            let text = &text[text.find("database: \"db\", id: ")? + 20..];
            text[..text.find(',')?].parse().ok()
        })
        .collect();
    ensure_eq!(foreign.len(), victims.len(), "HARNESS: ids of subscribers");
    let before = admin_state(&r)?;
    let mut conns: Vec<Hostile> = vec![];
    let mut aborted: Vec<tokio::task::JoinHandle<()>> = vec![];
    ctx.log(format!("{workers} workers, limit {limit}{}", if quic { ", QUIC" } else { "" }));
    for _ in 0..4 + s.draw(20) {
        for v in &mut victims {
            if s.chance(1, 3) {
                v.step(s)?;
            }
        }
        if conns.is_empty() || (conns.len() < 3 && s.chance(1, 6)) {
            let over_quic = quic && s.bool();
            ctx.log(format!("connecting over {}", if over_quic { "QUIC" } else { "WebSocket" }));
            let c = rt().block_on(async { if over_quic { dial_quic(&r).await } else { dial_ws(r.tcp).await } });
            conns.push(c.map_err(|e| Failure::new(format!("a new connection: {e}")))?);
        }
        let i = s.below(conns.len());
        let session = match s.weighted(&[4, 3, 2, 1]) {
            0 => None,
            1 if !sessions.is_empty() => Some(*s.pick(&sessions)),
            2 => conns[i].sessions.last().copied(),
            _ => Some(SessionId(s.interesting_u64(u64::MAX))),
        };
        let mut close = false;
        match s.weighted(&[10, 4, 2, 3, 3, 2, 2, 2, 2, 2, 2, 2, if quic { 6 } else { 0 }]) {
            0 => {
                let mut all: Vec<SessionId> = sessions.clone();
                all.extend(&conns[i].sessions);
                let (name, b, refused, what) = gen_request(s, &foreign, &all);
                ctx.log(format!("{i}: {what} as {session:?}"));
                let c = &mut conns[i];
                let id = c.ask(session, name.clone(), Ok(Bytes::from(b)));
                if !c.silent {
                    let p = c.answer(id, &what)?;
                    ensure_eq!(p.name, name, "{what}: api of the answer");
                    ctx.nontrivial();
                    if refused {
                        ctx.count("refused requests");
                        ensure!(is_refusal(&p), "{what}, as session {session:?}, was performed: {}", short(&p));
                    }
                }
            }
            1 => {
                // bodies of another type, cut short or empty
                let (name, ..) = gen_request(s, &foreign, &[]);
                let (_, mut b, _, other) = gen_request(s, &foreign, &[]);
                let cut = match s.below(3) {
                    0 => b.len(),
                    1 => s.below(b.len().max(1)),
                    _ => 0,
                };
                b.truncate(cut);
                ctx.log(format!("{i}: {name} with {cut} bytes of {other}, as {session:?}"));
                // (a request without a session it may log out)
                let c = &mut conns[i];
                let id = c.ask(session, name.clone(), Ok(Bytes::from(b)));
                if !c.silent {
                    c.answer(id, &format!("{name} with {cut} bytes of {other}"))?;
                    ctx.nontrivial();
                }
            }
            2 => {
                let name = if s.bool() { ApiName::new("nobody", "knows") } else { ApiName::new("", "\0") };
                ctx.log(format!("{i}: unknown api"));
                let c = &mut conns[i];
                let id = c.ask(session, name, Ok(Bytes::from(s.bytes(8, 4))));
                if !c.silent {
                    let p = c.answer(id, "an unknown api")?;
                    ensure!(p.value.is_err(), "an unknown api was answered {p:?}");
                }
            }
            3 => {
                // an error instead of a request
                let (name, ..) = gen_request(s, &foreign, &[]);
                let e = match s.below(3) {
                    0 => Error::InvalidCredentials,
                    1 => Error::other("x", "y"),
                    _ => Error::DatabaseNotFound("z".into()),
                };
                let n = 1 + s.draw(5);
                ctx.log(format!("{i}: {n} times {name} with an error instead of a body"));
                for _ in 0..n {
                    conns[i].ask(session, name.clone(), Err(e.clone()));
                }
            }
            4 => {
                let n = 1 + s.draw(5);
                ctx.log(format!("{i}: {n} requests whose handler panics"));
                for _ in 0..n {
                    let (name, b) = body(&Boom);
                    conns[i].ask(session, name, Ok(Bytes::from(b)));
                }
            }
            5 => {
                let n = 1 + s.draw(40);
                let delay = s.draw(3);
                ctx.log(format!("{i}: {n} requests without waiting"));
                let (name, b) = body(&Echo { data: vec![1], delay, fail: false });
                for _ in 0..n {
                    conns[i].ask(session, name.clone(), Ok(Bytes::from(b.clone())));
                }
            }
            6 => {
                let b = match s.below(3) {
                    0 => s.bytes(64, 20),
                    1 => {
                        let (name, b, ..) = gen_request(s, &foreign, &[]);
                        let mut b = bincode::serialize(&Payload { session_id: session, id: Some(7), name, value: Ok(Bytes::from(b)) }).expect("HARNESS: bincode");
                        b.truncate(s.below(b.len()));
                        b
                    }
                    _ => vec![0xff; s.below(3_000)],
                };
                ctx.log(format!("{i}: frame {}", short(&b)));
                conns[i].message(Message::Binary(b));
                close = matches!(conns[i].wire, Wire::Ws(_));
            }
            7 => {
                let m = match s.below(5) {
                    0 => Message::Text(s.string(8, 3)),
                    1 => Message::Ping(s.bytes(20, 5)),
                    2 => Message::Pong(s.bytes(20, 5)),
                    3 => Message::Close(None),
                    _ => Message::Binary(vec![0; 17 << 20]),
                };
                ctx.log(format!("{i}: {}", short(&m)));
                close = matches!(conns[i].wire, Wire::Ws(_)) && !matches!(m, Message::Ping(_));
                conns[i].message(m);
            }
            8 => {
                ctx.log(format!("{i}: disconnects"));
                close = true;
            }
            9 => {
                // not a websocket at all
                let mut b = match s.below(4) {
                    0 => s.bytes(200, 60),
                    1 => b"GET / HTTP/1.1\r\nHost: x\r\n\r\n".to_vec(),
                    2 => format!("GET / HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: {}\r\nSec-WebSocket-Protocol: {}\r\n\r\n", s.word(20), s.pick(&["", "other", CURRENT_PROTOCOL_VERSION])).into_bytes(),
                    _ => format!("GET / HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Protocol: {CURRENT_PROTOCOL_VERSION}\r\n\r\n").into_bytes(),
                };
                if s.bool() {
                    b.truncate(s.below(b.len().max(1)));
                }
                // frames: unmasked, reserved bits, endless, of absurd length
                for _ in 0..s.below(3) {
                    b.extend(match s.below(4) {
                        0 => vec![0x82, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                        1 => vec![0x82, 0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4],
                        2 => vec![0xf2, 0x85, 1, 2, 3, 4, 5],
                        _ => vec![0x02, 0x80, 1, 2, 3, 4, 0x00, 0x80, 1, 2, 3, 4],
                    });
                }
                ctx.log(format!("TCP: {}", short(&b)));
                let linger = s.bool();
                aborted.push(rt().spawn({
                    let addr = r.tcp;
                    async move {
                        if let Ok(mut c) = TcpStream::connect(addr).await {
                            let _ = c.write_all(&b).await;
                            if linger {
                                tokio::time::sleep(Duration::from_secs(60)).await;
                            }
                        }
                    }
                }));
            }
            10 => {
                // logging in without any rights
                ctx.log(format!("{i}: logging in as a user without rights"));
                let c = &mut conns[i];
                if c.silent {
                    continue;
                }
                let authentication = Authentication::token(tokens[1].0, &SensitiveString(tokens[1].1.clone())).or_fail("token")?;
                let (name, b) = body(&Authenticate { authentication });
                let id = c.ask(None, name, Ok(Bytes::from(b)));
                let p = c.answer(id, "authenticating")?;
                let Ok(b) = &p.value else { fail!("authenticating: {p:?}") };
                let session = pot::from_slice::<Result<Session, Error>>(b).or_fail("decoding")?.or_fail("authenticating")?;
                let SessionAuthentication::TokenChallenge { nonce, server_timestamp, .. } = &session.authentication else { fail!("authenticating: {session:?}") };
                let (name, b) = body(&Authenticate {
                    authentication: Authentication::TokenChallengeResponse(Bytes::from(
                        if s.chance(2, 3) { AuthenticationToken::compute_challenge_response_blake3(&SensitiveString(tokens[1].1.clone()), nonce, *server_timestamp).as_bytes().to_vec() } else { s.bytes(33, 32) },
                    )),
                });
                let id = c.ask(session.id, name, Ok(Bytes::from(b)));
                let p = c.answer(id, "authenticating")?;
                if let Ok(b) = &p.value {
                    if let Ok(Ok(x)) = pot::from_slice::<Result<Session, Error>>(b) {
                        c.sessions.extend(x.id);
                        ctx.count("logins");
                    }
                }
            }
            11 => {
                // another session logged out, or a victim reconnecting
                ctx.log("one more client following the protocol");
                let n = victims.len() as u64 + 5;
                if victims.len() < 4 {
                    let v = Victim::new(&r, quic && s.bool(), n, &tokens[0])?;
                    sessions.extend(v.client.session().and_then(|x| x.id));
                    victims.push(v);
                }
            }
            _ => {
                let Some((addr, cert)) = r.quic() else { continue };
                match s.below(4) {
                    0 => {
                        let b = s.bytes(1_300, 200);
                        ctx.log(format!("UDP: {}", short(&b)));
                        let _ = rt().block_on(async {
                            let u = UdpSocket::bind("[::]:0").await?;
                            u.send_to(&b, ("::1", addr.port())).await
                        });
                    }
                    1 => {
                        let n = 1 + s.draw(2);
                        ctx.log(format!("a QUIC handshake which stops after {n} datagrams"));
                        let port = rt().block_on(stall(addr, n)).or_env("stall")?;
                        aborted.push(rt().spawn(async move {
                            let mut b = fabruic::Endpoint::builder();
                            let _ = b.set_max_idle_timeout(None);
                            b.set_protocols([CURRENT_PROTOCOL_VERSION.as_bytes().to_vec()]);
                            let Ok(e) = b.build() else { return };
                            if let Ok(c) = e.connect_pinned(format!("bonsaidb://localhost:{port}"), &cert, None).await {
                                let _ = c.accept::<()>().await;
                            }
                        }));
                        std::thread::sleep(Duration::from_millis(30));
                    }
                    2 => {
                        ctx.log("a QUIC connection without a stream");
                        let c = rt().block_on(quic_connection(&cert, addr.port())).map_err(|e| Failure::new(format!("a new connection: {e}")))?;
                        aborted.push(rt().spawn(async move {
                            let _c = c;
                            tokio::time::sleep(Duration::from_secs(60)).await;
                        }));
                    }
                    _ => {
                        // messages which are not payloads
                        let mut b = bincode::serialize(&Payload { session_id: session, id: Some(7), name: ApiName::new("a", "b"), value: Ok(Bytes::from(vec![1])) }).expect("HARNESS: bincode");
                        b.truncate(s.below(b.len()));
                        ctx.log(format!("a QUIC stream saying {b:?}"));
                        let c = rt().block_on(quic_connection(&cert, addr.port())).map_err(|e| Failure::new(format!("a new connection: {e}")))?;
                        let linger = s.bool();
                        rt().block_on(async {
                            if let Ok((sender, receiver)) = c.1.open_stream::<Verbatim, Payload>(&()).await {
                                let _ = sender.send(&Verbatim(b));
                                if linger {
                                    aborted.push(tokio::spawn(async move {
                                        let _all = (c, sender, receiver);
                                        tokio::time::sleep(Duration::from_secs(60)).await;
                                    }));
                                }
                            }
                        });
                    }
                }
            }
        }
        if close {
            conns.remove(i);
        }
    }
    for v in &mut victims {
        for _ in 0..2 {
            v.step(s)?;
        }
    }
    // a client who comes later
    Victim::new(&r, quic, 99, &tokens[0])?.step(s)?;
    ensure_eq!(admin_state(&r)?, before, "users, groups, tokens and databases after (left) and before the attacks");
    let db = r.storage.database::<Main>("db").or_fail("database")?;
    let mut stored: BTreeMap<DocumentId, Vec<u8>> = BTreeMap::new();
    for c in [Col::Raw, Col::Item, Col::Named] {
        for d in db.list_from_collection(Range::from(..), Sort::Ascending, None, &c.name()).or_fail("list")? {
            ensure!(matches!(c, Col::Raw), "a document appeared in {c:?}: {d:?}");
            stored.insert(d.header.id, d.contents.to_vec());
        }
    }
    let mut want: BTreeMap<DocumentId, Vec<u8>> = BTreeMap::new();
    for v in &victims {
        want.extend(v.docs.iter().map(|(i, c)| (raw_id(*i), c.clone())));
        ensure_eq!(db.get_key(format!("c{}", v.n)).into_u64().or_fail("counter")?.unwrap_or_default(), v.counter, "a counter");
        ensure!(v.sub.receiver().try_receive().is_err(), "a client received a message not meant for it");
    }
    for (i, c) in &want {
        ensure_eq!(stored.remove(i).as_ref(), Some(c), "document {i} after the attacks");
    }
    stored.retain(|i, _| !(0..10).any(|n| *i == raw_id(990 + n)));
    ensure!(stored.is_empty(), "documents appeared: {stored:?}");
    drop(db);
    // they all leave
    conns.clear();
    for a in &aborted {
        a.abort();
    }
    let start = Instant::now();
    // (a victim who logged in has one connection for both of its clients)
    while r.server.connected_clients().iter().any(|c| c.transport() == &bonsaidb::server::Transport::WebSocket && !c.connected()) || gone(&r, &victims) {
        ensure!(start.elapsed() < WAIT, "{} clients are still connected, of {}", r.server.connected_clients().len(), victims.len());
        std::thread::sleep(Duration::from_millis(1));
    }
    drop(victims);
    drop(r);
    let start = Instant::now();
    while open_files(&scratch.0) > 0 {
        ensure!(start.elapsed() < WAIT, "{} files are still open after shutting down", open_files(&scratch.0));
        std::thread::sleep(Duration::from_millis(1));
    }
    Ok(())
}
/// Bytes sent as they are.
struct Verbatim(Vec<u8>);
impl Serialize for Verbatim {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeTuple;
        let mut t = s.serialize_tuple(self.0.len())?;
        for b in &self.0 {
            t.serialize_element(b)?;
        }
        t.end()
    }
}
impl<'de> Deserialize<'de> for Verbatim {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        Err(serde::de::Error::custom("only sent"))
    }
}
/// Whether more WebSocket clients are connected than follow the protocol.
fn gone(r: &Remote, victims: &[Victim]) -> bool {
    // QUIC connections end by their own timeouts.
    let ws = r.server.connected_clients().iter().filter(|c| c.transport() == &bonsaidb::server::Transport::WebSocket).count();
    ws > victims.len()
}

/// A server of its own process: `serve PATH` prints how to reach it.
pub fn serve(path: &str) -> Res {
    let statements = vec![Statement::for_any().allowing(&BonsaiAction::Server(ServerAction::Connect))];
    let r = Remote::start(config(std::path::Path::new(path)), DefaultPermissions::Permissions(Permissions::from(statements)), true, |c| c)?;
    let (quic, cert) = r.quic().expect("HARNESS: quic");
    println!("{} {} {}", r.tcp.port(), quic.port(), serde_json::to_string(&cert).or_env("certificate")?);
    // until the other end is closed
    let _ = std::io::Read::read_to_end(&mut std::io::stdin(), &mut vec![]);
    Ok(())
}
struct Served {
    child: std::process::Child,
    tcp: SocketAddr,
    quic: u16,
    cert: fabruic::Certificate,
}
impl Drop for Served {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Served {
    fn new(path: &std::path::Path) -> Res<Self> {
        use std::io::BufRead;
        use std::process::{Command, Stdio};
        let mut child = Command::new(std::env::current_exe().or_env("exe")?)
            .args(["serve".as_ref(), path.as_os_str()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .or_env("child")?;
        let out = child.stdout.take().expect("HARNESS: stdout");
        let mut line = String::new();
        std::io::BufReader::new(out).read_line(&mut line).or_env("child")?;
        let parts: Vec<&str> = line.trim().splitn(3, ' ').collect();
        if parts.len() < 3 {
            let _ = child.kill();
            return Err(Failure::env(format!("the server does not start: {line}")));
        }
        Ok(Served {
            child,
            tcp: ([127, 0, 0, 1], parts[0].parse::<u16>().or_env("port")?).into(),
            quic: parts[1].parse().or_env("port")?,
            cert: serde_json::from_str(parts[2]).or_env("certificate")?,
        })
    }
}
/// Lengths and counts of far more than there is.
fn lengths(s: &mut Source, ctx: &mut Ctx) -> Res {
    const MARK: [u8; 5] = *b"\x01MARK";
    let scratch = Scratch::new();
    let mut server = Served::new(&scratch.path("s"))?;
    let bits = 48 + s.draw(14);
    let n = 1_u64 << bits;
    ctx.nontrivial();
    let mark = || Bytes::from(MARK.to_vec());
    let find = |b: &[u8]| b.windows(5).position(|w| w == MARK).expect("HARNESS: mark");
    let sig = if s.bool() {
        let (name, mut b) = match s.below(3) {
            0 => body(&Publish { database: "db".into(), topic: mark(), payload: Bytes::default() }),
            1 => body(&Publish { database: "db".into(), topic: Bytes::default(), payload: mark() }),
            _ => body(&SubscribeTo { database: "db".into(), subscriber_id: 1, topic: mark() }),
        };
        // bytes as a sequence of 2^bits of them
        let at = find(&b);
        let mut header = vec![(4 << 5) | 0x10 | (n & 0xf) as u8];
        let mut rest = n >> 4;
        while rest >= 0x80 {
            header.push(rest as u8 | 0x80);
            rest >>= 7;
        }
        header.push(rest as u8);
        b.splice(at - 1..at, header);
        ctx.log(format!("WebSocket: {name} with bytes encoded as a sequence of 2^{bits}"));
        let mut c = rt().block_on(dial_ws(server.tcp)).map_err(|e| Failure::new(format!("connecting: {e}")))?;
        c.ask(None, name, Ok(Bytes::from(b)));
        std::thread::sleep(Duration::from_millis(300));
        "length:pot"
    } else {
        let mut b = bincode::serialize(&Payload { session_id: None, id: Some(7), name: ApiName::new("a", "b"), value: Ok(mark()) }).expect("HARNESS: bincode");
        let at = find(&b);
        b[at - 8..at].copy_from_slice(&n.to_le_bytes());
        ctx.log(format!("QUIC: a value of 2^{bits} bytes"));
        let c = rt().block_on(quic_connection(&server.cert, server.quic)).map_err(|e| Failure::new(format!("connecting: {e}")))?;
        rt().block_on(async {
            if let Ok((sender, _receiver)) = c.1.open_stream::<Verbatim, Payload>(&()).await {
                let _ = sender.send(&Verbatim(b));
                tokio::time::sleep(Duration::from_millis(300)).await;
            }
        });
        "length:quic"
    };
    if let Some(status) = server.child.try_wait().or_env("child")? {
        return Err(Failure::sig(sig, format!("the server's process ended: {status}")));
    }
    let mut c = rt().block_on(dial_ws(server.tcp)).map_err(|e| Failure::new(format!("connecting afterwards: {e}")))?;
    let id = c.ask(None, ApiName::new("nobody", "knows"), Ok(Bytes::default()));
    c.answer(id, "a request afterwards")?;
    Ok(())
}

// ---------- several sessions on one connection ----------

const KINDS: [&str; 3] = ["default", "reader", "all"];
struct Shared {
    conn: usize,
    /// Index into the sessions of its connection.
    session: usize,
    id: u64,
    db: &'static str,
    topics: std::collections::BTreeSet<Vec<u8>>,
    alive: bool,
}
struct Conn {
    c: Option<Hostile>,
    /// Ids (none for the one every connection starts with), kinds and whether they were logged out.
    sessions: Vec<(Option<SessionId>, usize, bool)>,
    received: usize,
}
/// What the sessions of each kind may do with subscribers.
fn may_create(kind: usize, db: &str) -> bool {
    kind == 2 || (kind == 1 && db == "db") || (kind == 0 && db == "lobby")
}
fn may_subscribe(kind: usize, db: &str, topic: &[u8]) -> bool {
    kind == 2 || (kind == 1 && db == "db" && topic == b"t") || (kind == 0 && db == "lobby")
}
fn performed(p: &Payload) -> bool {
    !is_refusal(p)
}
/// Sessions of one connection use the rights, subscribers and sessions of each other.
fn sessions(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let quic = s.chance(1, 3);
    let statements = vec![
        Statement::for_any().allowing(&BonsaiAction::Server(ServerAction::Connect)),
        Statement::for_any().allowing(&BonsaiAction::Server(ServerAction::AssumeIdentity)),
        Statement::for_resource(database_resource_name("lobby")).allowing_all(),
    ];
    let workers = 1 + s.below(4);
    let r = Remote::start(config(&scratch.path("s")), DefaultPermissions::Permissions(Permissions::from(statements)), quic, |c| c.request_workers(workers))?;
    for db in ["db", "lobby"] {
        r.storage.create_database::<Main>(db, false).or_fail("creating a database")?;
    }
    let pubsub = |a| BonsaiAction::Database(DatabaseAction::PubSub(a));
    let reader = vec![
        Statement::for_resource(database_resource_name("db")).allowing(&pubsub(PubSubAction::CreateSuscriber)),
        Statement::for_resource(pubsub_topic_resource_name("db", b"t")).allowing(&pubsub(PubSubAction::SubscribeTo)).allowing(&pubsub(PubSubAction::UnsubscribeFrom)),
    ];
    let mut users = vec![0];
    for (name, statements) in [("reader", reader), ("all", vec![Statement::for_any().allowing_all()])] {
        let u = r.storage.create_user(name).or_fail("user")?;
        PermissionGroup { name: name.into(), statements }.push_into(&r.storage.admin()).or_fail("group")?;
        r.storage.add_permission_group_to_user(u, name).or_fail("membership")?;
        users.push(u);
    }
    let dbs: BTreeMap<&str, bonsaidb::local::Database> =
        ["db", "lobby"].into_iter().map(|d| Ok((d, r.storage.database::<Main>(d).or_fail("database")?))).collect::<Res<_>>()?;
    dbs["db"].set_numeric_key("secret", 7_u64).execute().or_fail("set")?;
    let mut conns: Vec<Conn> = vec![];
    let mut subs: Vec<Shared> = vec![];
    let mut published = 0_u64;
    ctx.log(format!("{workers} workers{}", if quic { ", QUIC" } else { "" }));
    for _ in 0..6 + s.draw(40) {
        if conns.iter().all(|c| c.c.is_none()) || (conns.len() < 3 && s.chance(1, 10)) {
            let over_quic = quic && s.bool();
            ctx.log(format!("connection {} over {}", conns.len(), if over_quic { "QUIC" } else { "WebSocket" }));
            let c = rt().block_on(async { if over_quic { dial_quic(&r).await } else { dial_ws(r.tcp).await } });
            let c = c.map_err(|e| Failure::new(format!("a new connection: {e}")))?;
            conns.push(Conn { c: Some(c), sessions: vec![(None, 0, false)], received: 0 });
        }
        let live: Vec<usize> = (0..conns.len()).filter(|i| conns[*i].c.is_some()).collect();
        let i = *s.pick(&live);
        let usable: Vec<usize> = (0..conns[i].sessions.len()).filter(|k| !conns[i].sessions[*k].2).collect();
        let k = *s.pick(&usable);
        let (session, kind, _) = conns[i].sessions[k];
        // ids of sessions which are none of this connection
        let strange: Vec<SessionId> = conns
            .iter()
            .enumerate()
            .flat_map(|(n, c)| c.sessions.iter().filter(move |x| n != i || x.2).filter_map(|x| x.0))
            .chain([SessionId(s.interesting_u64(u64::MAX)), SessionId(0x5eed_0000_0000)])
            .filter(|x| !conns[i].sessions.iter().any(|y| !y.2 && y.0 == Some(*x)))
            .collect();
        let who = format!("{i}/{k} ({})", KINDS[kind]);
        let topic = s.pick(&[&b"t"[..], b"u"]).to_vec();
        match s.weighted(&[5, 6, 8, 4, 2, 8, 2, 1, 5, 4]) {
            0 => {
                let to = 1 + s.below(2);
                let (name, b) = body(&AssumeIdentity(IdentityReference::User(NamedReference::Key(users[to]))));
                let allowed = kind != 1;
                ctx.log(format!("{who} assumes the identity of {}", KINDS[to]));
                let c = conns[i].c.as_mut().expect("HARNESS: live");
                let id = c.ask(session, name, Ok(Bytes::from(b)));
                let p = c.answer(id, "assuming an identity")?;
                ensure_eq!(performed(&p), allowed, "{who}: assuming an identity: {}", short(&p));
                if allowed {
                    let Ok(b) = &p.value else { fail!("assuming an identity: {p:?}") };
                    let x = pot::from_slice::<Result<Session, Error>>(b).or_fail("decoding")?.or_fail("assuming")?;
                    ensure!(x.id.is_some() && conns.iter().all(|c| c.sessions.iter().all(|y| y.0 != x.id)), "the new session's id {:?} is that of another session", x.id);
                    conns[i].sessions.push((x.id, to, false));
                }
            }
            1 => {
                let db = *s.pick(&["db", "lobby"]);
                let (name, b) = body(&CreateSubscriber { database: db.into() });
                let c = conns[i].c.as_mut().expect("HARNESS: live");
                let id = c.ask(session, name, Ok(Bytes::from(b)));
                let p = c.answer(id, "creating a subscriber")?;
                ctx.log(format!("{who} creates subscriber {} in {db}", subs.len()));
                ensure_eq!(performed(&p), may_create(kind, db), "{who}: creating a subscriber in {db}: {}", short(&p));
                if let (true, Ok(b)) = (performed(&p), &p.value) {
                    let id = pot::from_slice::<Result<u64, Error>>(b).or_fail("decoding")?.or_fail("creating")?;
                    ensure!(subs.iter().all(|x| !x.alive || x.id != id), "the new subscriber has the id {id} of another one");
                    subs.push(Shared { conn: i, session: k, id, db, topics: Default::default(), alive: true });
                }
            }
            n @ (2 | 3 | 4 | 9) => {
                if subs.is_empty() {
                    continue;
                }
                let x = s.below(subs.len());
                // what = 0 subscribing, 1 unsubscribing, 2 unregistering
                let what = if n == 9 { s.below(3) } else { n - 2 };
                let own = subs[x].conn == i && subs[x].session == k && subs[x].alive;
                let (mut as_session, mut own) = (session, own);
                let mut said = who.clone();
                if n == 9 {
                    // with an id that is no session of this connection, which counts as none
                    if subs[x].conn == i && subs[x].session == 0 {
                        continue;
                    }
                    let y = *s.pick(&strange);
                    as_session = Some(y);
                    own = false;
                    said = format!("{i} with the strange session {y:?}");
                }
                let (database, subscriber_id) = (if s.chance(1, 4) { "lobby".into() } else { subs[x].db.to_string() }, subs[x].id);
                let t = Bytes::from(topic.clone());
                let (name, b) = match what {
                    0 => body(&SubscribeTo { database, subscriber_id, topic: t }),
                    1 => body(&UnsubscribeFrom { database, subscriber_id, topic: t }),
                    _ => body(&UnregisterSubscriber { database, subscriber_id }),
                };
                // (an id may belong to a later subscriber)
                if !own && subs.iter().any(|y| y.alive && y.id == subscriber_id && y.conn == i && y.session == k) {
                    continue;
                }
                let text = format!("{said}: {} subscriber {x} of {}/{} {:?}", ["subscribing", "unsubscribing", "unregistering"][what], subs[x].conn, subs[x].session, String::from_utf8_lossy(&topic));
                ctx.log(text.clone());
                let c = conns[i].c.as_mut().expect("HARNESS: live");
                let id = c.ask(as_session, name, Ok(Bytes::from(b)));
                let p = c.answer(id, &text)?;
                ctx.nontrivial();
                let allowed = own && (what == 2 || may_subscribe(kind, subs[x].db, &topic));
                ctx.count(if own { "own subscribers" } else { "foreign subscribers" });
                ensure_eq!(performed(&p), allowed, "{text}: {}", short(&p));
                if allowed {
                    match what {
                        0 => drop(subs[x].topics.insert(topic)),
                        1 => drop(subs[x].topics.remove(&topic)),
                        _ => subs[x].alive = false,
                    }
                }
            }
            5 => {
                let db = *s.pick(&["db", "lobby"]);
                published += 1;
                let payload = published.to_be_bytes().to_vec();
                ctx.log(format!("message {published} to {:?} in {db}", String::from_utf8_lossy(&topic)));
                let mut want: Vec<Vec<u64>> = vec![vec![]; conns.len()];
                for x in subs.iter().filter(|x| x.alive && x.db == db && x.topics.contains(&topic)) {
                    want[x.conn].push(x.id);
                }
                bonsaidb_core::pubsub::PubSub::publish_bytes(&dbs[db], topic.clone(), payload.clone()).or_fail("publish")?;
                if want.iter().all(Vec::is_empty) {
                    // (whoever receives it although not subscribed)
                    std::thread::sleep(Duration::from_millis(1));
                }
                for (n, c) in conns.iter_mut().enumerate() {
                    let Some(h) = &c.c else { continue };
                    let start = Instant::now();
                    while h.answers.lock().unwrap().messages.len() < c.received + want[n].len() {
                        ensure!(start.elapsed() < WAIT, "message {published} was not received by each of the subscribers {:?} of connection {n}", want[n]);
                        std::thread::sleep(Duration::from_micros(200));
                    }
                    let a = h.answers.lock().unwrap();
                    let mut got: Vec<u64> = vec![];
                    for p in &a.messages[c.received..] {
                        let Ok(b) = &p.value else { fail!("a message: {p:?}") };
                        let m = pot::from_slice::<Result<MessageReceived, Error>>(b).or_fail("decoding a message")?.or_fail("a message")?;
                        ensure_eq!((m.topic.to_vec(), m.payload.to_vec()), (topic.clone(), payload.clone()), "message received by connection {n}");
                        // the session it belongs to
                        let owner = subs.iter().find(|x| x.alive && x.id == m.subscriber_id).map(|x| c.sessions[x.session].0);
                        ensure_eq!(Some(p.session_id), owner, "session of message {published} to subscriber {} of connection {n}", m.subscriber_id);
                        got.push(m.subscriber_id);
                    }
                    c.received = a.messages.len();
                    got.sort_unstable();
                    want[n].sort_unstable();
                    ensure_eq!(got, want[n], "subscribers of connection {n} which received message {published}");
                }
            }
            6 => {
                // logging out a session of this connection, or one which is none of it
                if s.chance(1, 3) {
                    let y = *s.pick(&strange);
                    ctx.log(format!("{who} logs out the strange session {y:?}"));
                    let (name, b) = body(&LogOutSession(y));
                    let c = conns[i].c.as_mut().expect("HARNESS: live");
                    let id = c.ask(session, name, Ok(Bytes::from(b)));
                    c.answer(id, "logging out a strange session")?;
                } else if let Some(x) = session {
                    ctx.log(format!("{who} logs out"));
                    let (name, b) = body(&LogOutSession(x));
                    let c = conns[i].c.as_mut().expect("HARNESS: live");
                    let id = c.ask(session, name, Ok(Bytes::from(b)));
                    let p = c.answer(id, "logging out")?;
                    ensure!(performed(&p), "{who}: logging out: {}", short(&p));
                    conns[i].sessions[k].2 = true;
                    for y in subs.iter_mut().filter(|y| y.conn == i && y.session == k) {
                        y.alive = false;
                    }
                }
            }
            7 => {
                if live.len() < 2 {
                    continue;
                }
                ctx.log(format!("connection {i} ends"));
                let clients = || r.server.connected_clients().iter().filter(|c| c.transport() == &bonsaidb::server::Transport::WebSocket).count();
                let ws = matches!(conns[i].c.as_ref().expect("HARNESS: live").wire, Wire::Ws(_));
                if !ws {
                    continue;
                }
                conns[i].c = None;
                let left = conns.iter().filter(|c| matches!(&c.c, Some(h) if matches!(h.wire, Wire::Ws(_)))).count();
                let start = Instant::now();
                while clients() != left {
                    ensure!(start.elapsed() < WAIT, "{} clients are connected instead of {left}", clients());
                    std::thread::sleep(Duration::from_micros(300));
                }
                for x in &mut conns[i].sessions {
                    x.2 = true;
                }
                for y in subs.iter_mut().filter(|y| y.conn == i) {
                    y.alive = false;
                }
            }
            _ => {
                // many requests of several sessions at once
                let n = 2 + s.draw(10);
                let mut asked = vec![];
                for _ in 0..n {
                    let (as_session, may) = if s.chance(1, 6) {
                        (Some(*s.pick(&strange)), false)
                    } else {
                        let k = *s.pick(&usable);
                        (conns[i].sessions[k].0, conns[i].sessions[k].1 == 2)
                    };
                    let op = KeyOperation { namespace: None, key: "secret".into(), command: Command::Get { delete: false } };
                    let (name, b) = match s.below(4) {
                        0 => body(&Count { database: "db".into(), collection: Col::Raw.name(), ids: Range::from(..) }),
                        1 => body(&ListDatabases),
                        _ => body(&ExecuteKeyOperation { database: "db".into(), op }),
                    };
                    let c = conns[i].c.as_mut().expect("HARNESS: live");
                    asked.push((c.ask(as_session, name.clone(), Ok(Bytes::from(b))), may, format!("{name} as {as_session:?}")));
                }
                ctx.log(format!("{i}: {asked:?}"));
                let c = conns[i].c.as_mut().expect("HARNESS: live");
                for (id, may, what) in asked {
                    let p = c.answer(id, &what)?;
                    ensure_eq!(performed(&p), may, "{what}: {}", short(&p));
                    ctx.nontrivial();
                }
            }
        }
    }
    std::thread::sleep(Duration::from_millis(1));
    for (n, c) in conns.iter().enumerate() {
        if let Some(h) = &c.c {
            ensure_eq!(h.answers.lock().unwrap().messages.len(), c.received, "messages received by connection {n} in the end");
        }
    }
    drop((conns, dbs));
    Ok(())
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        level: "exploration",
        rule: "a hostile connection was answered at least once (attacks), or a session used a subscriber or sent requests beside other sessions of its connection (sessions)",
        assumptions: &["Bodies of requests are well-formed values of any type or cut short: what pot and bincode do with hostile lengths is known (see the known findings)."],
        sections: vec![section("attacks", 300, 20_000, attacks).threads(8), section("sessions", 400, 20_000, sessions).threads(8), section("lengths", 12, 60, lengths).threads(4)],
    }
}
