//! A server on a scratch directory and clients of it.
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU16, Ordering};
use std::time::Duration;

use bonsaidb::client::fabruic::Certificate;
use bonsaidb::client::url::Url;
use bonsaidb::client::{Async, AsyncClient, BlockingClient, Builder};
use bonsaidb::server::{BonsaiListenConfig, CustomServer, DefaultPermissions, ServerConfiguration};
use bonsaidb_core::connection::{AsyncStorageConnection, HasSession, IdentityReference, SensitiveString, Session, StorageConnection};
use bonsaidb_core::Error;
use bonsaidb_local::config::StorageConfiguration;
use bonsaidb_local::{AsyncStorage, Storage};

use crate::denied::rt;
use crate::engine::*;
use crate::fix::*;
use crate::ops::*;

/// Ports below the ephemeral range, never given twice by this process.
fn port() -> u16 {
    static NEXT: AtomicU16 = AtomicU16::new(0);
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    let base = (std::process::id() as u16 % 7) * 1_500;
    10_000 + (base + n) % 22_000
}
pub struct Remote {
    pub server: CustomServer,
    /// The server's storage, without any restriction.
    pub storage: Storage,
    pub tcp: SocketAddr,
    quic: Option<(SocketAddr, Certificate)>,
    tasks: Vec<tokio::task::JoinHandle<()>>,
}
impl Remote {
    pub fn start(storage: StorageConfiguration, permissions: DefaultPermissions, quic: bool, tune: impl FnOnce(ServerConfiguration) -> ServerConfiguration) -> Res<Self> {
        rt().block_on(async {
            let mut c = ServerConfiguration::default_for(bonsaidb::server::NoBackend).default_permissions(permissions).server_name("localhost");
            c.storage = storage;
            let server = CustomServer::open(tune(c)).await.or_fail("opening a server")?;
            let storage = Storage::from(&server);
            let mut tasks = vec![];
            let mut tcp = None;
            for _ in 0..50 {
                let addr: SocketAddr = ([127, 0, 0, 1], port()).into();
                let s = server.clone();
                let task = tokio::spawn(async move {
                    let _ = s.listen_for_websockets_on(addr, false).await;
                });
                let mut up = false;
                for _ in 0..2_000 {
                    if task.is_finished() {
                        break;
                    }
                    if tokio::net::TcpStream::connect(addr).await.is_ok() {
                        up = !task.is_finished();
                        break;
                    }
                    tokio::time::sleep(Duration::from_micros(500)).await;
                }
                if up {
                    tasks.push(task);
                    tcp = Some(addr);
                    break;
                }
                task.abort();
            }
            let tcp = tcp.ok_or_else(|| Failure::env("no TCP port"))?;
            let mut q = None;
            if quic {
                server.install_self_signed_certificate(false).await.or_fail("certificate")?;
                let cert = server.certificate_chain().await.or_fail("certificate")?.into_end_entity_certificate();
                for _ in 0..50 {
                    // (clients resolve "localhost" to either family)
                    let addr: SocketAddr = (std::net::Ipv6Addr::UNSPECIFIED, port()).into();
                    if std::net::UdpSocket::bind(addr).is_err() {
                        continue;
                    }
                    let s = server.clone();
                    let mut config = BonsaiListenConfig::default();
                    config.address = addr;
                    tasks.push(tokio::spawn(async move {
                        let _ = s.listen_on(config).await;
                    }));
                    q = Some((addr, cert.clone()));
                    break;
                }
                if q.is_none() {
                    return Err(Failure::env("no UDP port"));
                }
            }
            Ok(Remote { server, storage, tcp, quic: q, tasks })
        })
    }
    pub fn quic(&self) -> Option<(SocketAddr, Certificate)> {
        self.quic.clone()
    }
    pub fn url(&self) -> Url {
        Url::parse(&format!("ws://{}", self.tcp)).expect("HARNESS: url")
    }
    pub fn client(&self, quic: bool) -> Res<AsyncClient> {
        self.builder(quic, Duration::from_secs(40)).build().or_fail("building a client")
    }
    pub fn builder(&self, quic: bool, timeout: Duration) -> Builder<Async> {
        let b = if quic {
            let (addr, cert) = self.quic.as_ref().expect("HARNESS: no quic");
            AsyncClient::build(Url::parse(&format!("bonsaidb://localhost:{}", addr.port())).expect("HARNESS: url")).with_certificate(cert.clone())
        } else {
            AsyncClient::build(self.url())
        };
        b.with_runtime(rt().handle().clone()).with_request_timeout(timeout).with_connect_timeout(timeout)
    }
}
impl Drop for Remote {
    fn drop(&mut self) {
        let _ = rt().block_on(self.server.shutdown(None));
        for t in &self.tasks {
            t.abort();
        }
    }
}

/// Any of the interfaces of a storage.
pub enum Handle {
    Blocking(Storage),
    Async(AsyncStorage),
    /// The asynchronous storage turned into a blocking one.
    Into(Storage),
    Server(CustomServer),
    Client(AsyncClient),
    BlockingClient(BlockingClient),
}
impl Handle {
    pub fn kind(&self) -> &'static str {
        match self {
            Handle::Blocking(_) => "Storage",
            Handle::Async(_) => "AsyncStorage",
            Handle::Into(_) => "AsyncStorage as Storage",
            Handle::Server(_) => "Server",
            Handle::Client(_) => "AsyncClient",
            Handle::BlockingClient(_) => "BlockingClient",
        }
    }
    pub fn run(&self, req: &Req, d: &str) -> Out {
        macro_rules! go {
            ($s:expr) => {
                match req {
                    Req::Db(r) if d == "_admin" => exec_db(&$s.admin(), r),
                    Req::Db(r) => match $s.database::<Main>(d) {
                        Ok(db) => exec_db(&db, r),
                        Err(e) => error(&e),
                    },
                    _ => exec($s, None, req),
                }
            };
        }
        macro_rules! go_async {
            ($s:expr) => {
                rt().block_on(async {
                    match req {
                        Req::Db(r) if d == "_admin" => exec_db_async(&$s.admin().await, r).await,
                        Req::Db(r) => match $s.database::<Main>(d).await {
                            Ok(db) => exec_db_async(&db, r).await,
                            Err(e) => error(&e),
                        },
                        _ => exec_async($s, None, req).await,
                    }
                })
            };
        }
        match self {
            Handle::Blocking(s) | Handle::Into(s) => go!(s),
            Handle::Async(s) => go_async!(s),
            Handle::Server(s) => go_async!(s),
            Handle::Client(s) => go_async!(s),
            Handle::BlockingClient(s) => go!(s),
        }
    }
    pub fn login(&self, how: &Login) -> Result<Handle, Error> {
        macro_rules! go {
            ($s:expr) => {
                match how.clone() {
                    Login::Assume(i) => $s.assume_identity(i),
                    Login::Password(u, p) => $s.authenticate_with_password(u, SensitiveString(p)),
                    Login::Token(id, t) => $s.authenticate_with_token(id, &SensitiveString(t)),
                }
            };
        }
        macro_rules! go_async {
            ($s:expr) => {
                rt().block_on(async {
                    match how.clone() {
                        Login::Assume(i) => $s.assume_identity(i).await,
                        Login::Password(u, p) => $s.authenticate_with_password(u, SensitiveString(p)).await,
                        Login::Token(id, t) => $s.authenticate_with_token(id, &SensitiveString(t)).await,
                    }
                })
            };
        }
        Ok(match self {
            Handle::Blocking(s) => Handle::Blocking(go!(s)?),
            Handle::Into(s) => Handle::Into(go!(s)?),
            Handle::Async(s) => Handle::Async(go_async!(s)?),
            Handle::Server(s) => Handle::Server(go_async!(s)?),
            Handle::Client(s) => Handle::Client(go_async!(s)?),
            Handle::BlockingClient(s) => Handle::BlockingClient(go!(s)?),
        })
    }
    pub fn session(&self) -> Option<Session> {
        match self {
            Handle::Blocking(s) | Handle::Into(s) => s.session().cloned(),
            Handle::Async(s) => s.session().cloned(),
            Handle::Server(s) => s.session().cloned(),
            Handle::Client(s) => s.session().cloned(),
            Handle::BlockingClient(s) => s.session().cloned(),
        }
    }
}
#[derive(Clone, Debug)]
pub enum Login {
    Assume(IdentityReference<'static>),
    Password(Name, String),
    Token(u64, String),
}
