//! C20: messages.
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use bonsaidb::client::{ApiCallback, AsyncClient, AsyncRemoteDatabase, AsyncRemoteSubscriber, BlockingClient, BlockingRemoteDatabase, BlockingRemoteSubscriber};
use bonsaidb::server::{DefaultPermissions, ServerDatabase};
use bonsaidb_core::connection::{AsyncStorageConnection, StorageConnection};
use bonsaidb_core::pubsub::{AsyncPubSub, AsyncSubscriber, PubSub, Receiver, Subscriber as BlockingSubscriber, TryReceiveError};
use bonsaidb_local::{AsyncDatabase, AsyncStorage, Database, Storage, Subscriber};

use crate::denied::rt;
use crate::engine::*;
use crate::fix::*;
use crate::iface::{Echo, EchoHandler};
use crate::remote::*;
use crate::{ensure, ensure_eq, fail};

const DBS: [&str; 3] = ["db", "d", "db-2"];

enum Db {
    Local(Database),
    Async(AsyncDatabase),
    Server(ServerDatabase),
    Client(AsyncRemoteDatabase),
    Blocking(BlockingRemoteDatabase),
}
enum Sub {
    Local(Subscriber),
    /// Used through the asynchronous trait.
    Async(Subscriber),
    Client(AsyncRemoteSubscriber),
    Blocking(BlockingRemoteSubscriber),
}
type R = Result<(), bonsaidb_core::Error>;
impl Db {
    fn subscriber(&self) -> Res<Sub> {
        Ok(match self {
            Db::Local(d) => Sub::Local(d.create_subscriber().or_fail("create_subscriber")?),
            Db::Async(d) => Sub::Async(rt().block_on(AsyncPubSub::create_subscriber(d)).or_fail("create_subscriber")?),
            Db::Server(d) => Sub::Async(rt().block_on(AsyncPubSub::create_subscriber(d)).or_fail("create_subscriber")?),
            Db::Client(d) => Sub::Client(rt().block_on(d.create_subscriber()).or_fail("create_subscriber")?),
            Db::Blocking(d) => Sub::Blocking(d.create_subscriber().or_fail("create_subscriber")?),
        })
    }
    fn publish(&self, t: &Topic, p: &[u8]) -> R {
        let b = || (t.bytes(), p.to_vec());
        match (self, t) {
            (Db::Local(d), Topic::Bytes(_)) => d.publish_bytes(b().0, b().1),
            (Db::Local(d), Topic::Text(t)) => d.publish(t, &p.to_vec()),
            (Db::Async(d), Topic::Bytes(_)) => rt().block_on(d.publish_bytes(b().0, b().1)),
            (Db::Async(d), Topic::Text(t)) => rt().block_on(d.publish(t, &p.to_vec())),
            (Db::Server(d), Topic::Bytes(_)) => rt().block_on(d.publish_bytes(b().0, b().1)),
            (Db::Server(d), Topic::Text(t)) => rt().block_on(d.publish(t, &p.to_vec())),
            (Db::Client(d), Topic::Bytes(_)) => rt().block_on(d.publish_bytes(b().0, b().1)),
            (Db::Client(d), Topic::Text(t)) => rt().block_on(d.publish(t, &p.to_vec())),
            (Db::Blocking(d), Topic::Bytes(_)) => d.publish_bytes(b().0, b().1),
            (Db::Blocking(d), Topic::Text(t)) => d.publish(t, &p.to_vec()),
        }
    }
    fn publish_all(&self, t: &[Topic], p: &[u8]) -> R {
        let topics: Vec<Vec<u8>> = t.iter().map(Topic::bytes).collect();
        let text: Option<Vec<String>> = t.iter().map(|t| if let Topic::Text(t) = t { Some(t.clone()) } else { None }).collect();
        let p = p.to_vec();
        match (self, text) {
            (Db::Local(d), None) => d.publish_bytes_to_all(topics, p),
            (Db::Local(d), Some(t)) => d.publish_to_all(&t, &p),
            (Db::Async(d), None) => rt().block_on(d.publish_bytes_to_all(topics, p)),
            (Db::Async(d), Some(t)) => rt().block_on(d.publish_to_all(&t, &p)),
            (Db::Server(d), None) => rt().block_on(d.publish_bytes_to_all(topics, p)),
            (Db::Server(d), Some(t)) => rt().block_on(d.publish_to_all(&t, &p)),
            (Db::Client(d), None) => rt().block_on(d.publish_bytes_to_all(topics, p)),
            (Db::Client(d), Some(t)) => rt().block_on(d.publish_to_all(&t, &p)),
            (Db::Blocking(d), None) => d.publish_bytes_to_all(topics, p),
            (Db::Blocking(d), Some(t)) => d.publish_to_all(&t, &p),
        }
    }
}
impl Sub {
    fn receiver(&self) -> Receiver {
        match self {
            Sub::Local(s) => BlockingSubscriber::receiver(s).clone(),
            Sub::Async(s) => AsyncSubscriber::receiver(s).clone(),
            Sub::Client(s) => s.receiver().clone(),
            Sub::Blocking(s) => BlockingSubscriber::receiver(s).clone(),
        }
    }
    fn subscribe(&self, t: &Topic) -> R {
        match (self, t) {
            (Sub::Local(s), Topic::Bytes(t)) => BlockingSubscriber::subscribe_to_bytes(s, t.clone()),
            (Sub::Local(s), Topic::Text(t)) => BlockingSubscriber::subscribe_to(s, t),
            (Sub::Async(s), Topic::Bytes(t)) => rt().block_on(AsyncSubscriber::subscribe_to_bytes(s, t.clone())),
            (Sub::Async(s), Topic::Text(t)) => rt().block_on(AsyncSubscriber::subscribe_to(s, t)),
            (Sub::Client(s), Topic::Bytes(t)) => rt().block_on(s.subscribe_to_bytes(t.clone())),
            (Sub::Client(s), Topic::Text(t)) => rt().block_on(s.subscribe_to(t)),
            (Sub::Blocking(s), Topic::Bytes(t)) => BlockingSubscriber::subscribe_to_bytes(s, t.clone()),
            (Sub::Blocking(s), Topic::Text(t)) => BlockingSubscriber::subscribe_to(s, t),
        }
    }
    fn unsubscribe(&self, t: &Topic) -> R {
        match (self, t) {
            (Sub::Local(s), Topic::Bytes(t)) => BlockingSubscriber::unsubscribe_from_bytes(s, t),
            (Sub::Local(s), Topic::Text(t)) => BlockingSubscriber::unsubscribe_from(s, t),
            (Sub::Async(s), Topic::Bytes(t)) => rt().block_on(AsyncSubscriber::unsubscribe_from_bytes(s, t)),
            (Sub::Async(s), Topic::Text(t)) => rt().block_on(AsyncSubscriber::unsubscribe_from(s, t)),
            (Sub::Client(s), Topic::Bytes(t)) => rt().block_on(s.unsubscribe_from_bytes(t)),
            (Sub::Client(s), Topic::Text(t)) => rt().block_on(s.unsubscribe_from(t)),
            (Sub::Blocking(s), Topic::Bytes(t)) => BlockingSubscriber::unsubscribe_from_bytes(s, t),
            (Sub::Blocking(s), Topic::Text(t)) => BlockingSubscriber::unsubscribe_from(s, t),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Topic {
    Bytes(Vec<u8>),
    /// Published and subscribed to in its serialized form.
    Text(String),
}
impl Topic {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Topic::Bytes(b) => b.clone(),
            Topic::Text(t) => pot::to_vec(t).expect("HARNESS: pot"),
        }
    }
}
fn gen_topic(s: &mut Source) -> Topic {
    match s.weighted(&[8, 3, 1]) {
        0 => Topic::Bytes(s.pick(&[&b"a"[..], b"b", b"", b"\0", b"a\0", b"\0a", b"ab", b"db\0a", b"d\0a", b"b\0a", b"\xff", b"2\0a"]).to_vec()),
        1 => Topic::Text((*s.pick(&["a", "b", "", "\0"])).to_string()),
        _ => Topic::Bytes(s.bytes(6, 2)),
    }
}
fn gen_db(s: &mut Source) -> usize {
    s.weighted(&[4, 1, 1])
}
/// Often one subscribed to.
fn topic(s: &mut Source, w: &World) -> Topic {
    let used: BTreeSet<&Vec<u8>> = w.members.iter().flat_map(|m| &m.topics).collect();
    let used: Vec<&Vec<u8>> = used.into_iter().collect();
    if !used.is_empty() && s.chance(2, 3) {
        let t: Vec<u8> = s.pick(&used).to_vec();
        match pot::from_slice::<String>(&t) {
            Ok(x) if pot::to_vec(&x).ok().as_ref() == Some(&t) => Topic::Text(x),
            _ => Topic::Bytes(t),
        }
    } else {
        gen_topic(s)
    }
}
struct Member {
    db: usize,
    kind: usize,
    sub: Option<Sub>,
    receiver: Receiver,
    topics: BTreeSet<Vec<u8>>,
    /// Messages not yet received.
    expected: Vec<(Vec<u8>, Vec<u8>)>,
    sentinel: Vec<u8>,
}
fn receive(r: &Receiver, what: &str) -> Res<(Vec<u8>, Vec<u8>)> {
    match rt().block_on(async { tokio::time::timeout(Duration::from_secs(40), r.receive_async()).await }) {
        Ok(Ok(m)) => Ok((m.topic.to_vec(), m.payload.to_vec())),
        Ok(Err(_)) => fail!("{what}: disconnected"),
        Err(_) => fail!("{what}: a message never arrived"),
    }
}
struct World {
    storage: Storage,
    dbs: Vec<Vec<Db>>,
    remote: Option<(Remote, Vec<(AsyncClient, flume::Receiver<Vec<u8>>)>)>,
    members: Vec<Member>,
    ticks: u64,
}
impl Drop for World {
    fn drop(&mut self) {
        // before the server is shut down
        self.members.clear();
        self.dbs.clear();
    }
}
impl World {
    fn new(s: &mut Source, scratch: &Scratch) -> Res<Self> {
        let path = scratch.path("s");
        let mut w = if s.chance(2, 3) {
            let quic = s.chance(1, 3);
            let r = Remote::start(config(&path), DefaultPermissions::AllowAll, quic, |c| c.with_api::<EchoHandler, Echo>().expect("HARNESS: api"))?;
            let mut clients = vec![];
            for _ in 0..1 + s.draw(1) {
                let (tx, rx) = flume::unbounded();
                let callback = ApiCallback::<Echo>::new(move |data: Vec<u8>| {
                    let _ = tx.send(data);
                    async {}
                });
                let c = r.builder(quic, Duration::from_secs(40)).with_api_callback(callback);
                clients.push((c.build().or_fail("client")?, rx));
            }
            World { storage: r.storage.clone(), dbs: vec![], remote: Some((r, clients)), members: vec![], ticks: 0 }
        } else {
            World { storage: open(&path)?, dbs: vec![], remote: None, members: vec![], ticks: 0 }
        };
        for d in DBS {
            w.storage.create_database::<Main>(d, false).or_fail("creating a database")?;
            let mut v = vec![Db::Local(w.storage.database::<Main>(d).or_fail("database")?)];
            let a: AsyncStorage = w.storage.to_async_with_runtime(rt().handle().clone());
            v.push(Db::Async(rt().block_on(a.database::<Main>(d)).or_fail("database")?));
            if let Some((r, clients)) = &w.remote {
                v.push(Db::Server(rt().block_on(r.server.database::<Main>(d)).or_fail("database")?));
                for (c, _) in clients {
                    v.push(Db::Client(rt().block_on(c.database::<Main>(d)).or_fail("database")?));
                    v.push(Db::Blocking(BlockingClient::from(c.clone()).database::<Main>(d).or_fail("database")?));
                }
            }
            w.dbs.push(v);
        }
        if let Some((_, clients)) = &w.remote {
            for (c, _) in clients {
                rt().block_on(c.list_databases()).or_fail("connecting")?;
            }
        }
        Ok(w)
    }
    fn published(&mut self, db: usize, t: &Topic, p: &[u8], text: bool) {
        let b = t.bytes();
        let p = if text { pot::to_vec(&p.to_vec()).expect("HARNESS: pot") } else { p.to_vec() };
        for m in &mut self.members {
            if m.db == db && m.sub.is_some() && m.topics.contains(&b) {
                m.expected.push((b.clone(), p.clone()));
            }
        }
    }
    /// Everything received so far.
    fn check(&mut self) -> Res<u64> {
        let mut n = 0;
        for (i, m) in self.members.iter_mut().enumerate() {
            if m.sub.is_none() {
                continue;
            }
            self.ticks += 1;
            let tick = self.ticks.to_be_bytes().to_vec();
            let Db::Local(db) = &self.dbs[m.db][0] else { unreachable!("HARNESS: local") };
            db.publish_bytes(m.sentinel.clone(), tick.clone()).or_fail("publish")?;
            let mut got = vec![];
            loop {
                let r = receive(&m.receiver, &format!("subscriber {i} (expecting {:?})", m.expected))?;
                if r.0 == m.sentinel {
                    ensure_eq!(r.1, tick, "subscriber {i}: message of its own topic");
                    break;
                }
                got.push(r);
            }
            ensure_eq!(got, m.expected, "messages received by subscriber {i} (through interface {}) of {}", m.kind, DBS[m.db]);
            n += got.len() as u64;
            m.expected.clear();
        }
        Ok(n)
    }
}
fn histories(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let mut w = World::new(s, &scratch)?;
    let kinds = w.dbs[0].len();
    ctx.log(format!("{kinds} interfaces, {}", if w.remote.is_some() { "with a server" } else { "local" }));
    let steps = 8 + s.draw(32);
    for _ in 0..steps {
        let n = w.members.len();
        match s.weighted(&[[60, 20, 5, 3, 2, 0][n], 8, 3, 10, 4, 1, 2, 3, 2, 2]) {
            0 => {
                let (db, kind) = (gen_db(s), s.below(kinds));
                let sub = w.dbs[db][kind].subscriber()?;
                let sentinel = format!("~{n}").into_bytes();
                ctx.log(format!("subscriber {n} of {} through {kind}", DBS[db]));
                sub.subscribe(&Topic::Bytes(sentinel.clone())).or_fail("subscribe")?;
                w.members.push(Member { db, kind, receiver: sub.receiver(), sub: Some(sub), topics: BTreeSet::new(), expected: vec![], sentinel });
            }
            1 if n > 0 => {
                let i = s.below(n);
                let t = gen_topic(s);
                ctx.log(format!("{i} subscribes to {t:?}"));
                let m = &mut w.members[i];
                if let Some(sub) = &m.sub {
                    sub.subscribe(&t).or_fail("subscribe")?;
                    m.topics.insert(t.bytes());
                }
            }
            2 if n > 0 => {
                let i = s.below(n);
                let existing: Vec<Vec<u8>> = w.members[i].topics.iter().cloned().collect();
                let t = if !existing.is_empty() && s.chance(2, 3) { Topic::Bytes(s.pick(&existing).clone()) } else { gen_topic(s) };
                ctx.log(format!("{i} unsubscribes from {t:?}"));
                let m = &mut w.members[i];
                if let Some(sub) = &m.sub {
                    sub.unsubscribe(&t).or_fail("unsubscribe")?;
                    m.topics.remove(&t.bytes());
                }
            }
            3 => {
                let (db, kind) = (gen_db(s), s.below(kinds));
                let t = topic(s, &w);
                let p = s.bytes(4, 2);
                ctx.log(format!("publishing {p:?} to {t:?} of {} through {kind}", DBS[db]));
                w.dbs[db][kind].publish(&t, &p).or_fail("publish")?;
                w.published(db, &t, &p, matches!(t, Topic::Text(_)));
            }
            4 => {
                let (db, kind) = (gen_db(s), s.below(kinds));
                let mut ts = s.list(0, 4, 2, |s| topic(s, &w));
                // the same topic given twice: not specified
                let mut seen = BTreeSet::new();
                ts.retain(|t| seen.insert(t.bytes()));
                let p = s.bytes(4, 2);
                ctx.log(format!("publishing {p:?} to all of {ts:?} of {} through {kind}", DBS[db]));
                w.dbs[db][kind].publish_all(&ts, &p).or_fail("publish_to_all")?;
                let text = ts.iter().all(|t| matches!(t, Topic::Text(_)));
                for t in &ts {
                    w.published(db, t, &p, text);
                }
            }
            5 if n > 0 => {
                let i = s.below(n);
                ctx.log(format!("dropping subscriber {i}"));
                let m = &mut w.members[i];
                let Some(sub) = m.sub.take() else { continue };
                let local = matches!(sub, Sub::Local(_) | Sub::Async(_));
                drop(sub);
                if local {
                    // what was received before remains
                    let expected = std::mem::take(&mut m.expected);
                    let t = m.topics.iter().next().cloned();
                    let (db, r) = (m.db, m.receiver.clone());
                    if let (Some(t), Db::Local(d)) = (t, &w.dbs[db][0]) {
                        d.publish_bytes(t.clone(), b"late".to_vec()).or_fail("publish")?;
                        w.published(db, &Topic::Bytes(t), b"late", false);
                    }
                    let mut got = vec![];
                    let end = loop {
                        match r.try_receive() {
                            Ok(m) => got.push((m.topic.to_vec(), m.payload.to_vec())),
                            Err(e) => break e,
                        }
                    };
                    ensure_eq!(got, expected, "messages left to a dropped subscriber's receiver");
                    ensure_eq!(end, TryReceiveError::Disconnected, "a dropped subscriber's receiver");
                }
            }
            6 if n > 0 => {
                // clones share everything
                let i = s.below(n);
                let m = &mut w.members[i];
                match &m.sub {
                    Some(Sub::Local(l)) => {
                        let c = l.clone();
                        ctx.log(format!("subscriber {i} is replaced by its clone"));
                        m.sub = Some(if s.bool() { Sub::Local(c) } else { Sub::Async(c) });
                        m.receiver = m.sub.as_ref().map(Sub::receiver).expect("HARNESS: receiver");
                    }
                    Some(_) => m.receiver = m.receiver.clone(),
                    None => {}
                }
            }
            7 => {
                ctx.log("receiving");
                if w.check()? > 0 {
                    ctx.nontrivial();
                }
            }
            8 => concurrent(s, &mut w, ctx)?,
            9 => {
                if let Some((r, clients)) = &w.remote {
                    let d = s.bytes(4, 2);
                    ctx.log(format!("broadcasting {d:?}"));
                    r.server.broadcast::<Echo>(&d);
                    ctx.count("broadcasts");
                    for (i, (_, rx)) in clients.iter().enumerate() {
                        match rx.recv_timeout(Duration::from_secs(40)) {
                            Ok(got) => ensure_eq!(got, d, "client {i}: broadcast"),
                            Err(e) => fail!("client {i}: a broadcast never arrived: {e:?}"),
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if w.check()? > 0 {
        ctx.nontrivial();
    }
    if let Some((_, clients)) = &w.remote {
        for (i, (_, rx)) in clients.iter().enumerate() {
            ensure!(rx.try_recv().is_err(), "client {i}: a broadcast arrived twice");
        }
    }
    Ok(())
}
/// Several publishers at once: what each published arrives in its order.
fn concurrent(s: &mut Source, w: &mut World, ctx: &mut Ctx) -> Res {
    let kinds = w.dbs[0].len();
    type Plan = Vec<(usize, Vec<Topic>)>;
    let plans: Vec<(usize, Plan)> = s.list(2, 4, 3, |s| {
        (
            s.below(kinds),
            s.list(1, 8, 4, |s: &mut Source| {
                let mut seen = BTreeSet::new();
                let mut t = s.list(1, 3, 1, |s| topic(s, w));
                t.retain(|t| matches!(t, Topic::Bytes(_)) && seen.insert(t.bytes()));
                (gen_db(s), t)
            }),
        )
    });
    w.check()?;
    ctx.log(format!("concurrently (interface, [(database, topics)]): {plans:?}"));
    ctx.count("concurrent publishing");
    let results: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(p, (kind, plan))| {
                let dbs = &w.dbs;
                sc.spawn(move || {
                    catch(|| {
                        for (n, (db, topics)) in plan.iter().enumerate() {
                            let payload = vec![p as u8, n as u8];
                            let r = if topics.len() == 1 { dbs[*db][*kind].publish(&topics[0], &payload) } else { dbs[*db][*kind].publish_all(topics, &payload) };
                            r.map_err(|e| format!("publish: {e:?}"))?;
                        }
                        Ok(())
                    })
                    .unwrap_or_else(Err)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("HARNESS: thread")).collect()
    });
    for r in results {
        if let Err(e) = r {
            fail!("{e}");
        }
    }
    for (i, m) in w.members.iter_mut().enumerate() {
        if m.sub.is_none() {
            continue;
        }
        w.ticks += 1;
        let tick = w.ticks.to_be_bytes().to_vec();
        let Db::Local(db) = &w.dbs[m.db][0] else { unreachable!("HARNESS: local") };
        db.publish_bytes(m.sentinel.clone(), tick.clone()).or_fail("publish")?;
        let mut got: BTreeMap<u8, Vec<(Vec<u8>, Vec<u8>)>> = BTreeMap::new();
        loop {
            let r = receive(&m.receiver, &format!("subscriber {i} (concurrent)"))?;
            if r.0 == m.sentinel {
                break;
            }
            ensure!(r.1.len() == 2, "subscriber {i}: received {r:?}");
            got.entry(r.1[0]).or_default().push(r);
        }
        for (p, (_, plan)) in plans.iter().enumerate() {
            let mut want = vec![];
            for (n, (db, topics)) in plan.iter().enumerate() {
                for t in topics {
                    if *db == m.db && m.topics.contains(&t.bytes()) {
                        want.push((t.bytes(), vec![p as u8, n as u8]));
                    }
                }
            }
            ensure_eq!(got.remove(&(p as u8)).unwrap_or_default(), want, "messages of publisher {p} received by subscriber {i}");
            if !want.is_empty() {
                ctx.nontrivial();
            }
        }
        ensure!(got.is_empty(), "subscriber {i} received {got:?}");
    }
    Ok(())
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        level: "exploration",
        rule: "at least one subscriber received a message",
        assumptions: &[
            "What publish_to_all does with a topic given twice is not specified, and not generated.",
            "Databases are not deleted while subscribed to.",
        ],
        sections: vec![section("histories", 1_500, 60_000, histories).threads(8)],
    }
}
