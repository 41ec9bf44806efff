//! C23: files.
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::io::{Read, Seek, SeekFrom, Write};
use std::task::Poll;

use bonsaidb::files::direct::{Async, Blocking, Contents, File};
use bonsaidb::files::{Error, FileConfig, Statistics, Truncate};
use bonsaidb_core::connection::{Bound, LowLevelConnection, Range, Sort, StorageConnection};
use bonsaidb_core::key::time::TimestampAsNanoseconds as Stamp;
use bonsaidb_core::schema::{CollectionName, Qualified, Schema, SchemaName, Schematic};
use bonsaidb_local::config::Builder;
use bonsaidb_local::{AsyncDatabase, Database, Storage};
use futures::StreamExt;
use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncWriteExt};

use crate::denied::rt;
use crate::engine::*;
use crate::{ensure, ensure_eq, fail};

type Meta = Option<String>;

#[derive(Debug)]
struct Cfg<const N: usize>;
impl<const N: usize> FileConfig for Cfg<N> {
    type Metadata = Meta;
    const BLOCK_SIZE: usize = N;
    fn files_name() -> CollectionName {
        CollectionName::new("files", format!("f{N}"))
    }
    fn blocks_name() -> CollectionName {
        CollectionName::new("files", format!("b{N}"))
    }
}
const HUGE: usize = 2 * 1024 * 1024;
#[derive(Debug)]
struct Filing;
impl Schema for Filing {
    fn schema_name() -> SchemaName {
        SchemaName::new("files", "filing")
    }
    fn define_collections(s: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
        Cfg::<1>::register_collections(s)?;
        Cfg::<7>::register_collections(s)?;
        Cfg::<64>::register_collections(s)?;
        Cfg::<4096>::register_collections(s)?;
        Cfg::<HUGE>::register_collections(s)
    }
}
fn open(path: &std::path::Path) -> Res<(Storage, Database)> {
    let mut c = bonsaidb_local::config::StorageConfiguration::new(path).with_schema::<Filing>().or_env("schema")?;
    c.workers.worker_count = 2;
    let storage = Storage::open(c).or_fail("opening storage")?;
    let db = storage.create_database::<Filing>("main", true).or_fail("create_database")?;
    Ok((storage, db))
}

enum Handle<C: FileConfig> {
    B(File<Blocking<Database>, C>),
    A(File<Async<AsyncDatabase>, C>),
}
/// Calls a method which is asynchronous in the asynchronous interface.
macro_rules! on {
    ($h:expr, $f:ident => $m:ident ( $($a:expr),* )) => {
        match &mut $h {
            Handle::B($f) => $f.$m($($a),*),
            Handle::A($f) => rt().block_on($f.$m($($a),*)),
        }
    };
}
/// Calls a method which neither waits nor differs.
macro_rules! of {
    ($h:expr, $f:ident => $e:expr) => {
        match &$h {
            Handle::B($f) => $e,
            Handle::A($f) => $e,
        }
    };
}
/// Calls one of the two functions of a configuration.
macro_rules! config {
    ($w:expr, $s:expr, $b:ident / $a:ident ( $($x:expr),* ) $map:expr) => {
        if $s.bool() {
            C::$b($($x,)* &$w.db).map(|r| $map(r, Handle::B as fn(File<Blocking<Database>, C>) -> Handle<C>))
        } else {
            rt().block_on(C::$a($($x,)* &$w.adb)).map(|r| $map(r, Handle::A as fn(File<Async<AsyncDatabase>, C>) -> Handle<C>))
        }
    };
}
fn opt<F, H>(r: Option<F>, f: fn(F) -> H) -> Option<H> {
    r.map(f)
}
fn one<F, H>(r: F, f: fn(F) -> H) -> H {
    f(r)
}
fn all<F, H>(r: Vec<F>, f: fn(F) -> H) -> Vec<H> {
    r.into_iter().map(f).collect()
}

#[derive(Clone, Debug, PartialEq)]
struct Known {
    dir: String,
    name: String,
    meta: Meta,
    created: Stamp,
    data: Vec<u8>,
    version: u64,
    /// Bytes were appended last in this span of time; None if not known (after a truncation).
    appended: Option<(Stamp, Stamp)>,
}
impl Known {
    fn path(&self) -> String {
        format!("{}{}", self.dir, self.name)
    }
}
struct Held<C: FileConfig> {
    h: Handle<C>,
    id: u32,
    version: u64,
    meta: Meta,
    dir: String,
    name: String,
}
struct Dbs {
    db: Database,
    adb: AsyncDatabase,
}
struct Fs<C: FileConfig<Metadata = Meta>> {
    files: BTreeMap<u32, Known>,
    held: Vec<Held<C>>,
    versions: u64,
    wide: bool,
}
trait Filer {
    fn step(&mut self, s: &mut Source, w: &Dbs, ctx: &mut Ctx) -> Res;
    fn check(&mut self, s: &mut Source, w: &Dbs) -> Res;
    fn release(&mut self) -> bool;
}

const PARTS: [&str; 12] = ["a", "b", "ab", "a b", "a.txt", "a-", "a0", "A", "é", "\u{d7ff}", "\u{10ffff}", "z"];
fn gen_dir(s: &mut Source) -> String {
    let n = s.weighted(&[3, 5, 4, 1]);
    let mut dir = "/".to_string();
    for _ in 0..n {
        dir += *s.pick(&PARTS[..if n > 1 { 4 } else { 12 }]);
        dir.push('/');
    }
    dir
}
fn gen_data(s: &mut Source, block: usize) -> Vec<u8> {
    let n = match s.draw(5) {
        0 => 0,
        1 => s.draw(3) as usize,
        2 if block < 100_000 => (block as i64 * s.range(1, 3) as i64 + s.irange(-1, 1)).clamp(0, 20_000) as usize,
        3 => s.draw(40) as usize,
        _ => s.draw((block as u64 * 5).min(300)) as usize,
    };
    let seed = s.draw(255) as u8;
    (0..n).map(|i| seed.wrapping_add((i as u8).wrapping_mul(37)).wrapping_add((i >> 8) as u8)).collect()
}
fn gen_meta(s: &mut Source) -> Meta {
    s.bool().then(|| s.string(12, 4))
}

impl<C: FileConfig<Metadata = Meta>> Fs<C> {
    fn new() -> Self {
        Fs { files: BTreeMap::new(), held: vec![], versions: 0, wide: false }
    }
    fn at(&self, path: &str) -> Option<u32> {
        let path = if path.len() > 1 { path.strip_suffix('/').unwrap_or(path) } else { path };
        self.files.iter().find(|(_, f)| f.path() == path).map(|(id, _)| *id)
    }
    fn next(&mut self) -> u64 {
        self.versions += 1;
        self.versions
    }
    fn gen_path(&self, s: &mut Source) -> String {
        if !self.files.is_empty() && s.chance(2, 3) {
            let i = s.below(self.files.len());
            let f = self.files.values().nth(i).expect("HARNESS: file");
            if s.chance(1, 6) {
                // below it
                return format!("{}/{}", f.path(), s.pick(&PARTS));
            }
            return f.path();
        }
        format!("{}{}", gen_dir(s), s.pick(&PARTS))
    }
    /// The handle shows the file as the model knows it.
    fn shows(&self, what: &str, h: &Handle<C>) -> Res<u32> {
        let id = of!(h, f => f.id());
        let Some(k) = self.files.get(&id) else { fail!("{what}: shows a file {id} which does not exist: {}", of!(h, f => f.path())) };
        let got = of!(h, f => (f.containing_path().to_string(), f.name().to_string(), f.metadata().clone(), f.created_at(), f.path()));
        ensure_eq!(got, (k.dir.clone(), k.name.clone(), k.meta.clone(), k.created, k.path()), "{what}: file {id}");
        Ok(id)
    }
    fn hold(&mut self, h: Handle<C>, id: u32) -> usize {
        let k = &self.files[&id];
        self.held.push(Held { h, id, version: k.version, meta: k.meta.clone(), dir: k.dir.clone(), name: k.name.clone() });
        if self.held.len() > 6 {
            self.held.remove(0);
        }
        self.held.len() - 1
    }
    /// A handle to use: one held, perhaps outdated, or a new one.
    fn handle(&mut self, s: &mut Source, w: &Dbs) -> Res<Option<usize>> {
        if !self.held.is_empty() && s.chance(2, 3) {
            return Ok(Some(s.below(self.held.len())));
        }
        if self.files.is_empty() {
            return Ok(None);
        }
        let i = s.below(self.files.len());
        let id = *self.files.keys().nth(i).expect("HARNESS: file");
        let h = if s.bool() {
            config!(w, s, get/get_async(id) opt).or_fail("get")?
        } else {
            config!(w, s, load/load_async(&self.files[&id].path()) opt).or_fail("load")?
        };
        let Some(h) = h else { fail!("file {id} at {:?} was not found", self.files[&id].path()) };
        ensure_eq!(self.shows("loaded", &h)?, id, "id of a loaded file");
        Ok(Some(self.hold(h, id)))
    }
    /// What saving the document of a held handle as dir/name has to do. None: fails with anything else than a collision.
    fn may_save(&self, i: usize, dir: &str, name: &str) -> Option<Result<(), ()>> {
        let h = &self.held[i];
        let k = self.files.get(&h.id)?;
        if k.version != h.version {
            return None;
        }
        let taken = self.files.iter().any(|(id, f)| *id != h.id && f.dir == dir && f.name == name);
        Some(if taken { Err(()) } else { Ok(()) })
    }
    fn saved(&mut self, i: usize, dir: &str, name: &str, r: Result<(), Error>, what: &str, ctx: &mut Ctx) -> Res {
        match (self.may_save(i, dir, name), r) {
            (Some(Ok(())), Ok(())) => {
                let v = self.next();
                let h = &mut self.held[i];
                let k = self.files.get_mut(&h.id).expect("HARNESS: file");
                let same = k.dir == dir && k.name == name && k.meta == h.meta;
                (k.dir, k.name, k.meta) = (dir.into(), name.into(), h.meta.clone());
                k.version = v;
                h.version = v;
                (h.dir, h.name) = (dir.into(), name.into());
                let id = h.id;
                if same {
                    // whether other handles became outdated is not specified
                    let mut n = 0;
                    self.held.retain(|h| {
                        n += 1;
                        n - 1 == i || h.id != id
                    });
                }
                Ok(())
            }
            (Some(Err(())), Err(Error::AlreadyExists)) => {
                ctx.count("collisions");
                self.kept(i, what)
            }
            (None, Err(e)) if !matches!(e, Error::AlreadyExists) || self.files.iter().any(|(_, f)| f.dir == dir && f.name == name) => {
                ctx.count("outdated");
                self.kept(i, what)
            }
            (want, got) => fail!("{what}: {got:?}, expected {}", match want {
                Some(Ok(())) => "success",
                Some(Err(())) => "Error::AlreadyExists",
                None => "an error: the handle is outdated or its file deleted",
            }),
        }
    }
    /// A failed operation left the handle as it was.
    fn kept(&self, i: usize, what: &str) -> Res {
        let h = &self.held[i];
        let got = of!(h.h, f => (f.containing_path().to_string(), f.name().to_string(), f.metadata().clone()));
        ensure_eq!(got, (h.dir.clone(), h.name.clone(), h.meta.clone()), "{what}: the handle after the failure");
        Ok(())
    }
    fn created(&mut self, h: Handle<C>, dir: String, name: String, data: Vec<u8>, meta: Meta, t0: Stamp, what: &str) -> Res<usize> {
        let id = of!(h, f => f.id());
        ensure!(!self.files.contains_key(&id), "{what}: got the id {id} of another file");
        let created = of!(h, f => f.created_at());
        let now = Stamp::now();
        ensure!(created >= t0 && created <= now, "{what}: created at {created:?}, which is not between {t0:?} and {now:?}");
        let version = self.next();
        self.wide |= data.len() / C::BLOCK_SIZE > 12;
        self.files.insert(id, Known { dir, name, meta, created, data, version, appended: Some((t0, now)) });
        self.shows(what, &h)?;
        Ok(self.hold(h, id))
    }
    fn appended(&mut self, id: u32, data: &[u8], t0: Stamp) {
        let k = self.files.get_mut(&id).expect("HARNESS: file");
        k.data.extend(data);
        if !data.is_empty() {
            k.appended = Some((t0, Stamp::now()));
        }
        self.wide |= k.data.len() / C::BLOCK_SIZE > 12;
    }
    fn check_file(&mut self, i: usize) -> Res {
        let h = &mut self.held[i];
        let id = h.id;
        let nothing = Known { data: vec![], appended: None, ..self.files.values().next().cloned().unwrap_or(Known { dir: String::new(), name: String::new(), meta: None, created: Stamp::now(), data: vec![], version: 0, appended: None }) };
        let k = self.files.get(&id).unwrap_or(&nothing);
        ensure_eq!(on!(h.h, f => len()).or_fail("len")?, k.data.len() as u64, "length of file {id}");
        ensure_eq!(on!(h.h, f => is_empty()).or_fail("is_empty")?, k.data.is_empty(), "emptiness of file {id}");
        let last = on!(h.h, f => last_appended_at()).or_fail("last_appended_at")?;
        if k.data.is_empty() {
            ensure!(last.is_none(), "file {id} is empty, but was last appended at {last:?}");
        } else {
            let Some(last) = last else { fail!("file {id} with contents was never appended") };
            if let Some((a, b)) = k.appended {
                ensure!(last >= a && last <= b, "file {id} was last appended between {a:?} and {b:?}, not at {last:?}");
            }
        }
        let got = match &h.h {
            Handle::B(f) => f.contents().or_fail("contents")?.into_vec(),
            Handle::A(f) => rt().block_on(async { f.contents().await.map_err(std::io::Error::other)?.into_vec().await }),
        };
        same_bytes(&format!("contents of file {id}"), &got.or_fail("reading the contents")?, &k.data)
    }
    fn in_dir(&self, dir: &str) -> BTreeSet<u32> {
        self.files.iter().filter(|(_, f)| f.dir == dir).map(|(id, _)| *id).collect()
    }
    fn below(&self, prefix: &str) -> BTreeSet<u32> {
        self.files.iter().filter(|(_, f)| f.dir.starts_with(prefix)).map(|(id, _)| *id).collect()
    }
    fn listed(&self, what: &str, list: Vec<Handle<C>>, least: &BTreeSet<u32>, most: &BTreeSet<u32>) -> Res {
        let mut ids = BTreeSet::new();
        for h in &list {
            let id = self.shows(what, h)?;
            ensure!(ids.insert(id), "{what}: file {id} twice");
        }
        ensure!(least.is_subset(&ids) && ids.is_subset(most), "{what}: files {ids:?}, expected {least:?}");
        Ok(())
    }
    fn statistics(&self, what: &str, got: Statistics, least: &BTreeSet<u32>, most: &BTreeSet<u32>) -> Res {
        if least == most {
            let total: usize = least.iter().map(|id| self.files[id].data.len()).sum();
            ensure_eq!((got.file_count, got.total_bytes), (least.len(), total as u64), "{what}");
            ensure_eq!(got.last_appended_at.is_some(), total > 0, "{what}: last_appended_at is {:?}", got.last_appended_at);
            if let (Some(t), true) = (got.last_appended_at, least.iter().all(|id| self.files[id].appended.is_some() || self.files[id].data.is_empty())) {
                let of = |f: fn((Stamp, Stamp)) -> Stamp| least.iter().filter(|id| !self.files[id].data.is_empty()).filter_map(|id| self.files[id].appended).map(f).max();
                ensure!(Some(t) >= of(|a| a.0) && Some(t) <= of(|a| a.1), "{what}: last appended at {t:?}");
            }
        }
        Ok(())
    }

    fn read(&mut self, s: &mut Source, w: &Dbs, ctx: &mut Ctx) -> Res {
        let Some(i) = self.handle(s, w)? else { return Ok(()) };
        let id = self.held[i].id;
        let data = self.files.get(&id).map(|k| k.data.clone()).unwrap_or_default();
        let reader = match &self.held[i].h {
            Handle::B(f) => Reader::B(f.contents().or_fail("contents")?),
            Handle::A(f) => Reader::A(Box::pin(rt().block_on(f.contents()).or_fail("contents")?)),
        };
        let mut r = Reading { reader: Some(reader), data, pos: 0, gone: false, block: C::BLOCK_SIZE };
        if s.bool() {
            let max = match s.draw(2) {
                0 => 3,
                1 => (C::BLOCK_SIZE as u64 * 3).min(10_000),
                _ => 1000,
            };
            r.buffer_size(s.draw(max) as usize);
        }
        ctx.log(format!("reading file {id} of {} bytes", r.data.len()));
        for _ in 0..1 + s.draw(10) {
            if s.chance(1, 8) && self.files.contains_key(&id) {
                // the file changes meanwhile
                let before = self.files[&id].data.clone();
                match s.draw(2) {
                    0 => self.append(s, w, Some(id), ctx)?,
                    1 => self.truncate(s, w, Some(id), ctx)?,
                    _ => self.delete(s, w, Some(id), ctx)?,
                }
                let now = self.files.get(&id).map(|k| k.data.clone()).unwrap_or_default();
                if !now.starts_with(&before) {
                    r.gone = true;
                    ctx.count("changed while read");
                }
            }
            if !r.step(s, ctx)? {
                break;
            }
        }
        if !r.data.is_empty() {
            ctx.nontrivial();
        }
        Ok(())
    }
    fn fresh(&mut self, s: &mut Source, w: &Dbs, id: u32) -> Res<usize> {
        let Some(h) = config!(w, s, get/get_async(id) opt).or_fail("get")? else { fail!("file {id} was not found") };
        self.shows("get", &h)?;
        Ok(self.hold(h, id))
    }
    fn append(&mut self, s: &mut Source, w: &Dbs, only: Option<u32>, ctx: &mut Ctx) -> Res {
        let i = match only {
            Some(id) => self.fresh(s, w, id)?,
            None => match self.handle(s, w)? {
                Some(i) => i,
                None => return Ok(()),
            },
        };
        let id = self.held[i].id;
        let t0 = Stamp::now();
        if s.chance(2, 3) {
            let data = gen_data(s, C::BLOCK_SIZE);
            ctx.log(format!("append {} bytes to {id}", data.len()));
            let r = on!(self.held[i].h, f => append(&data));
            if self.files.contains_key(&id) || data.is_empty() {
                r.or_fail("append")?;
                if !data.is_empty() {
                    self.appended(id, &data, t0);
                }
            } else {
                ensure!(r.is_err(), "appending to a deleted file succeeded");
            }
            return Ok(());
        }
        if !self.files.contains_key(&id) {
            return Ok(());
        }
        // buffered
        let mut data = vec![];
        let mut plan = vec![];
        for _ in 0..1 + s.draw(5) {
            plan.push(match s.draw(5) {
                0 => Write1::Flush,
                1 => Write1::Size(s.draw((C::BLOCK_SIZE as u64 * 3).min(5000)) as usize),
                2 => Write1::CancelledFlush,
                _ => Write1::Data(gen_data(s, C::BLOCK_SIZE)),
            });
        }
        let finish = s.chance(4, 5);
        ctx.log(format!("buffered append to {id}: {}", short(&plan)));
        match &mut self.held[i].h {
            Handle::B(f) => {
                let mut out = f.append_buffered();
                for p in &plan {
                    match p {
                        Write1::Flush | Write1::CancelledFlush => out.flush().or_fail("flush")?,
                        Write1::Size(n) => out.set_buffer_size(*n).or_fail("set_buffer_size")?,
                        Write1::Data(d) => {
                            out.write_all(d).or_fail("write_all")?;
                            data.extend(d);
                        }
                    }
                }
                if finish {
                    out.flush().or_fail("flush")?;
                }
            }
            Handle::A(f) => {
                rt().block_on(async {
                    let mut out = f.append_buffered();
                    for p in &plan {
                        match p {
                            Write1::Flush => out.flush().await.or_fail("flush")?,
                            Write1::CancelledFlush => {
                                // polled once, and finished by what follows
                                let mut flush = Box::pin(out.flush());
                                let r = std::future::poll_fn(|cx| Poll::Ready(flush.as_mut().poll(cx))).await;
                                drop(flush);
                                if let Poll::Ready(r) = r {
                                    r.or_fail("flush")?;
                                }
                            }
                            Write1::Size(n) => out.set_buffer_size(*n).await.or_fail("set_buffer_size")?,
                            Write1::Data(d) => {
                                out.write_all(d).await.or_fail("write_all")?;
                                data.extend(d);
                            }
                        }
                    }
                    if finish || plan.iter().any(|p| matches!(p, Write1::CancelledFlush)) {
                        // once for the flush begun before, once for what was buffered since
                        out.flush().await.or_fail("flush")?;
                        out.flush().await.or_fail("flush")?;
                    }
                    Res::Ok(())
                })?;
                if !finish {
                    // what was not flushed is written in the background
                    let want = (self.files[&id].data.len() + data.len()) as u64;
                    let until = std::time::Instant::now() + std::time::Duration::from_secs(20);
                    while rt().block_on(f.len()).or_fail("len")? < want {
                        ensure!(std::time::Instant::now() < until, "a dropped buffer was not written within 20 s");
                        std::thread::sleep(std::time::Duration::from_millis(1));
                    }
                }
            }
        }
        self.appended(id, &data, t0);
        if !data.is_empty() && plan.iter().filter(|p| matches!(p, Write1::Data(_))).count() > 1 {
            // flushed in between: the last block may be older
            let k = self.files.get_mut(&id).expect("HARNESS: file");
            k.appended = Some((t0, Stamp::now()));
        }
        self.check_file(i)
    }
    fn truncate(&mut self, s: &mut Source, w: &Dbs, only: Option<u32>, ctx: &mut Ctx) -> Res {
        let i = match only {
            Some(id) => self.fresh(s, w, id)?,
            None => match self.handle(s, w)? {
                Some(i) => i,
                None => return Ok(()),
            },
        };
        let id = self.held[i].id;
        let before = self.files.get(&id).map(|k| k.data.clone()).unwrap_or_default();
        let n = match s.draw(3) {
            0 => 0,
            _ => s.draw(before.len() as u64 + 2),
        };
        let from = if s.bool() { Truncate::RemovingStart } else { Truncate::RemovingEnd };
        ctx.log(format!("truncate {id} of {} bytes to {n}, {from:?}", before.len()));
        on!(self.held[i].h, f => truncate(n, from)).or_fail("truncate")?;
        let got = on!(self.held[i].h, f => len()).or_fail("len")?;
        if before.len() as u64 <= n {
            ensure_eq!(got, before.len() as u64, "length after truncating to {n}");
            return Ok(());
        }
        ensure!(got >= n && got - n < C::BLOCK_SIZE as u64 && (n > 0 || got == 0), "length {got} after truncating {} bytes to {n} with blocks of {}", before.len(), C::BLOCK_SIZE);
        let got = got as usize;
        if got < before.len() {
            let k = self.files.get_mut(&id).expect("HARNESS: file");
            k.data = match from {
                Truncate::RemovingStart => before[before.len() - got..].to_vec(),
                Truncate::RemovingEnd => {
                    k.appended = None;
                    before[..got].to_vec()
                }
            };
        }
        self.check_file(i)
    }
    fn delete(&mut self, s: &mut Source, w: &Dbs, only: Option<u32>, ctx: &mut Ctx) -> Res {
        if only.is_none() && s.bool() {
            let path = self.gen_path(s);
            ctx.log(format!("delete {path:?}"));
            let got = config!(w, s, delete/delete_async(&path) |r, _| r);
            let id = self.at(&path);
            ensure_eq!(got.or_fail("delete")?, id.is_some(), "deleting {path:?}");
            if let Some(id) = id {
                self.files.remove(&id);
            }
            return Ok(());
        }
        let i = match only {
            Some(id) => self.fresh(s, w, id)?,
            None => match self.handle(s, w)? {
                Some(i) => i,
                None => return Ok(()),
            },
        };
        let id = self.held[i].id;
        ctx.log(format!("delete file {id}"));
        let r = on!(self.held[i].h, f => delete());
        let current = self.files.get(&id).map_or(false, |k| k.version == self.held[i].version);
        ensure_eq!(r.is_ok(), current, "deleting a file by a handle, which is{} current: {r:?}", if current { "" } else { " not" });
        if current {
            self.files.remove(&id);
        } else if self.files.contains_key(&id) {
            ctx.count("outdated");
            self.check_file(i)?;
        }
        Ok(())
    }
}
#[derive(Debug)]
enum Write1 {
    Data(Vec<u8>),
    Flush,
    CancelledFlush,
    Size(usize),
}
fn same_bytes(what: &str, got: &[u8], want: &[u8]) -> Res {
    if got != want {
        let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        fail!("{what}: {} bytes, expected {}, differing at {at}", got.len(), want.len());
    }
    Ok(())
}

impl<C: FileConfig<Metadata = Meta>> Filer for Fs<C> {
    fn step(&mut self, s: &mut Source, w: &Dbs, ctx: &mut Ctx) -> Res {
        match s.weighted(&[8, 3, 7, 4, 3, 4, 3, 4, 2, 2, 3, 3, 8]) {
            0 => {
                let mut path = self.gen_path(s);
                let data = gen_data(s, C::BLOCK_SIZE);
                let meta = gen_meta(s);
                let (mut dir, mut name) = split(&path);
                let mut b = if s.bool() {
                    if s.chance(1, 5) {
                        path.push('/');
                    }
                    C::build_with_metadata(&path, meta.clone())
                } else {
                    if s.chance(1, 10) {
                        name = s.pick(&["", "a/b", "b/"]).to_string();
                    }
                    let b = C::build(&name).metadata(meta.clone());
                    if dir == "/" && s.bool() {
                        b
                    } else if s.chance(1, 20) {
                        dir = s.pick(&["a", "a/b/", "é"]).to_string();
                        b.at_path(&dir)
                    } else {
                        b.at_path(if dir.len() > 1 && s.bool() { dir.trim_end_matches('/') } else { &dir })
                    }
                };
                if !data.is_empty() || s.bool() {
                    b = b.contents(&data);
                }
                ctx.log(format!("create {dir:?} {name:?} with {} bytes", data.len()));
                let t0 = Stamp::now();
                let r = if s.bool() { b.create(&w.db).map(Handle::B) } else { rt().block_on(b.create_async(&w.adb)).map(Handle::A) };
                let taken = self.files.values().any(|f| f.dir == dir && f.name == name);
                match r {
                    Err(Error::InvalidName) if name.is_empty() || name.contains('/') => {}
                    Err(Error::InvalidPath) if !dir.starts_with('/') => {}
                    Err(Error::AlreadyExists) if taken && !name.contains('/') => ctx.count("collisions"),
                    Ok(h) if !taken && !name.is_empty() && !name.contains('/') && dir.starts_with('/') => {
                        let i = self.created(h, dir, name, data, meta, t0, "create")?;
                        self.check_file(i)?;
                        ctx.count("files");
                    }
                    r => fail!("creating a file at {dir:?} named {name:?}: {:?}", r.map(|h| of!(h, f => f.id()))),
                }
            }
            1 => {
                let path = self.gen_path(s);
                let expect = s.bool();
                let (dir, name) = split(&path);
                ctx.log(format!("load or create {path:?}"));
                let t0 = Stamp::now();
                let (r, meta) = if s.bool() {
                    (config!(w, s, load_or_create/load_or_create_async(&path, expect) one), None)
                } else {
                    let meta = gen_meta(s);
                    (config!(w, s, load_or_create_with_metadata/load_or_create_with_metadata_async(&path, meta.clone(), expect) one), meta)
                };
                let h = r.or_fail("load_or_create")?;
                match self.at(&path) {
                    Some(id) => {
                        ensure_eq!(self.shows("load_or_create", &h)?, id, "id of the file at {path:?}");
                        self.hold(h, id);
                    }
                    None => {
                        let i = self.created(h, dir, name, vec![], meta, t0, "load_or_create")?;
                        self.check_file(i)?;
                    }
                }
            }
            2 => self.append(s, w, None, ctx)?,
            3 => self.truncate(s, w, None, ctx)?,
            4 => self.delete(s, w, None, ctx)?,
            5 => {
                // move
                let Some(i) = self.handle(s, w)? else { return Ok(()) };
                let mut to = self.gen_path(s);
                match s.draw(4) {
                    0 => to = gen_dir(s),
                    1 => to.push('/'),
                    2 if s.chance(1, 4) => to = s.pick(&["", "a", "b/c"]).to_string(),
                    _ => {}
                }
                let (dir, name) = if to.ends_with('/') { (to.clone(), self.held[i].name.clone()) } else { split(&to) };
                ctx.log(format!("move {} to {to:?}", self.held[i].id));
                let r = on!(self.held[i].h, f => move_to(&to));
                if !to.starts_with('/') {
                    ensure!(matches!(r, Err(Error::InvalidPath)), "moving to {to:?}: {r:?}");
                    self.kept(i, "move")?;
                } else {
                    self.saved(i, &dir, &name, r, "move", ctx)?;
                }
            }
            6 => {
                let Some(i) = self.handle(s, w)? else { return Ok(()) };
                let name = if s.chance(1, 8) { s.pick(&["", "/", "a/b"]).to_string() } else { s.pick(&PARTS).to_string() };
                ctx.log(format!("rename {} to {name:?}", self.held[i].id));
                let r = on!(self.held[i].h, f => rename(name.clone()));
                if name.is_empty() || name.contains('/') {
                    ensure!(matches!(r, Err(Error::InvalidName)), "renaming to {name:?}: {r:?}");
                    self.kept(i, "rename")?;
                } else {
                    let dir = self.held[i].dir.clone();
                    self.saved(i, &dir, &name, r, "rename", ctx)?;
                }
            }
            7 => {
                let Some(i) = self.handle(s, w)? else { return Ok(()) };
                let meta = gen_meta(s);
                match &mut self.held[i].h {
                    Handle::B(f) => *f.metadata_mut() = meta.clone(),
                    Handle::A(f) => *f.metadata_mut() = meta.clone(),
                }
                self.held[i].meta = meta;
                if s.chance(4, 5) {
                    ctx.log(format!("metadata of {}", self.held[i].id));
                    let r = on!(self.held[i].h, f => update_metadata()).map_err(Error::from);
                    let (dir, name) = (self.held[i].dir.clone(), self.held[i].name.clone());
                    self.saved(i, &dir, &name, r, "update_metadata", ctx)?;
                }
            }
            8 => {
                let mut path = self.gen_path(s);
                if s.chance(1, 4) {
                    path.push('/');
                }
                let h = config!(w, s, load/load_async(&path) opt).or_fail("load")?;
                match (self.at(&path), h) {
                    (None, None) => {}
                    (Some(id), Some(h)) => ensure_eq!(self.shows("load", &h)?, id, "id of the file at {path:?}"),
                    (want, got) => fail!("loading {path:?}: {:?}, expected {want:?}", got.map(|h| of!(h, f => f.id()))),
                }
                let id = s.draw(12) as u32;
                let h = config!(w, s, get/get_async(id) opt).or_fail("get")?;
                ensure_eq!(h.is_some(), self.files.contains_key(&id), "file {id} exists");
            }
            9 => {
                let Some(i) = self.handle(s, w)? else { return Ok(()) };
                let path = of!(self.held[i].h, f => f.path());
                let list = match &self.held[i].h {
                    Handle::B(f) => f.children().or_fail("children")?.into_iter().map(Handle::B).collect(),
                    Handle::A(f) => rt().block_on(f.children()).or_fail("children")?.into_iter().map(Handle::A).collect(),
                };
                let want = self.in_dir(&format!("{path}/"));
                self.listed(&format!("children of {path:?}"), list, &want, &want)?;
            }
            10 => {
                let dir = gen_dir(s);
                let path = if s.bool() { dir.trim_end_matches('/') } else { &dir };
                let want = self.in_dir(&dir);
                let list = config!(w, s, list/list_async(path) all).or_fail("list")?;
                if !want.is_empty() {
                    ctx.count("lists");
                }
                self.listed(&format!("list of {path:?}"), list, &want, &want)?;
            }
            11 => {
                let dir = gen_dir(s);
                // whether "/a" covers "/ab/" as well is not specified
                let path = if dir.len() > 1 && s.bool() { dir.trim_end_matches('/') } else { &dir };
                let (least, most) = (self.below(&dir), self.below(path));
                if s.bool() {
                    let list = config!(w, s, list_recursive/list_recursive_async(path) all).or_fail("list_recursive")?;
                    self.listed(&format!("recursive list of {path:?}"), list, &least, &most)?;
                } else if s.bool() {
                    let got = config!(w, s, stats_for_path/stats_for_path_async(path) |r, _| r).or_fail("stats_for_path")?;
                    self.statistics(&format!("statistics of {path:?}"), got, &least, &most)?;
                } else {
                    let got = config!(w, s, stats/stats_async() |r, _| r).or_fail("stats")?;
                    let every = self.below("/");
                    self.statistics("statistics", got, &every, &every)?;
                }
            }
            _ => self.read(s, w, ctx)?,
        }
        Ok(())
    }
    fn check(&mut self, s: &mut Source, w: &Dbs) -> Res {
        let every = self.below("/");
        let list = config!(w, s, list_recursive/list_recursive_async("/") all).or_fail("list_recursive")?;
        self.listed("all files", list, &every, &every)?;
        let docs = w.db.list_from_collection(Range { start: Bound::Unbounded, end: Bound::Unbounded }, Sort::Ascending, None, &C::files_name()).or_fail("list_from_collection")?;
        ensure_eq!(docs.len(), every.len(), "number of file documents");
        // no data but that of the files
        let mut data: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
        for d in w.db.list_from_collection(Range { start: Bound::Unbounded, end: Bound::Unbounded }, Sort::Ascending, None, &C::blocks_name()).or_fail("list_from_collection")? {
            let n = d.contents.len().checked_sub(12).filter(|n| (1..=C::BLOCK_SIZE).contains(n));
            let Some(n) = n else { fail!("a stored block of {} bytes", d.contents.len()) };
            let id = u32::from_be_bytes(d.contents[n..n + 4].try_into().expect("HARNESS: length"));
            ensure!(self.files.contains_key(&id), "data of file {id}, which does not exist, is still stored");
            data.entry(id).or_default().extend(&d.contents[..n]);
        }
        for (id, k) in &self.files {
            same_bytes(&format!("stored blocks of file {id}"), data.get(id).map_or(&[][..], |d| d), &k.data)?;
        }
        let ids: Vec<u32> = self.files.keys().copied().collect();
        for id in ids {
            let i = self.fresh(s, w, id)?;
            self.check_file(i)?;
        }
        Ok(())
    }
    fn release(&mut self) -> bool {
        self.held.clear();
        !self.wide
    }
}
fn split(path: &str) -> (String, String) {
    let (d, n) = path.rsplit_once('/').unwrap_or(("", path));
    (format!("{d}/"), n.to_string())
}

// ---------- reading ----------

enum Reader<C: FileConfig> {
    B(Contents<Blocking<Database>, C>),
    A(std::pin::Pin<Box<Contents<Async<AsyncDatabase>, C>>>),
}
struct Reading<C: FileConfig> {
    reader: Option<Reader<C>>,
    data: Vec<u8>,
    pos: usize,
    /// Some of the data is no longer stored: it may still be read if it was loaded before.
    gone: bool,
    block: usize,
}
impl<C: FileConfig> Reading<C> {
    fn buffer_size(&mut self, n: usize) {
        self.reader = Some(match self.reader.take().expect("HARNESS: reader") {
            Reader::B(r) => Reader::B(r.with_buffer_size(n)),
            Reader::A(r) => Reader::A(Box::pin(std::pin::Pin::into_inner(r).with_buffer_size(n))),
        });
    }
    /// Bytes which were read at the current position.
    fn got(&mut self, what: &str, bytes: &[u8]) -> Res {
        let rest = &self.data[self.pos..];
        ensure!(bytes.len() <= rest.len(), "{what} at {}: {} bytes, of {} left", self.pos, bytes.len(), rest.len());
        same_bytes(&format!("{what} at {} of {}", self.pos, self.data.len()), bytes, &rest[..bytes.len()])?;
        self.pos += bytes.len();
        Ok(())
    }
    /// Ends the reading if the data may be missing.
    fn failed(&self, what: &str, e: std::io::Error) -> Res<bool> {
        ensure!(self.gone, "{what} at {} of {}: {e:?}", self.pos, self.data.len());
        Ok(false)
    }
    fn step(&mut self, s: &mut Source, ctx: &mut Ctx) -> Res<bool> {
        let mut reader = self.reader.take().expect("HARNESS: reader");
        let left = self.data.len() - self.pos;
        match s.weighted(&[8, 3, 2, 4, 6, 2, 2]) {
            0 => {
                let n = match s.draw(4) {
                    0 => s.draw(1) as usize,
                    1 => self.block.min(30_000),
                    2 => s.draw(left as u64 + 2) as usize,
                    _ => 1 + s.draw(40) as usize,
                };
                let mut buf = vec![0xAA; n];
                let cancelled = s.chance(1, 4);
                ctx.log(format!("read {n} at {}{}", self.pos, if cancelled { ", perhaps cancelled" } else { "" }));
                let r = match &mut reader {
                    Reader::B(r) => r.read(&mut buf),
                    Reader::A(r) if cancelled => match rt().block_on(once(r.read(&mut buf))) {
                        Some(r) => r,
                        None => {
                            ctx.count("cancelled reads");
                            self.reader = Some(reader);
                            return Ok(true);
                        }
                    },
                    Reader::A(r) => rt().block_on(r.read(&mut buf)),
                };
                match r {
                    Ok(k) => {
                        ensure!(k <= n, "read {k} bytes into a buffer of {n}");
                        ensure!(k > 0 || n == 0 || left == 0, "end of file at {} of {}", self.pos, self.data.len());
                        self.got("read", &buf[..k])?;
                    }
                    Err(e) => return self.failed("read", e),
                }
            }
            1 => {
                let n = s.draw(left as u64) as usize;
                let mut buf = vec![0xAA; n];
                ctx.log(format!("read exactly {n} at {}", self.pos));
                let r = match &mut reader {
                    Reader::B(r) => r.read_exact(&mut buf),
                    Reader::A(r) => rt().block_on(r.read_exact(&mut buf)).map(|_| ()),
                };
                match r {
                    Ok(()) => self.got("read_exact", &buf)?,
                    Err(e) => return self.failed("read_exact", e),
                }
            }
            2 => {
                ctx.log(format!("rest at {}", self.pos));
                let r = match &mut reader {
                    Reader::B(r) => match s.draw(1) {
                        0 => r.to_vec(),
                        _ => r.clone().into_vec(),
                    },
                    Reader::A(r) => match s.draw(1) {
                        0 => rt().block_on(r.to_vec()),
                        _ => rt().block_on(std::pin::Pin::into_inner(r.clone()).into_vec()),
                    },
                };
                match r {
                    Ok(v) => same_bytes(&format!("remaining contents at {} of {}", self.pos, self.data.len()), &v, &self.data[self.pos..])?,
                    Err(e) => return self.failed("to_vec", e),
                }
                let r = match &mut reader {
                    Reader::B(r) => r.to_string(),
                    Reader::A(r) => rt().block_on(r.to_string()),
                };
                match (r, String::from_utf8(self.data[self.pos..].to_vec())) {
                    (Ok(a), Ok(b)) if a == b => {}
                    (Err(_), _) if self.gone => {}
                    (Err(e), Err(_)) if e.kind() == std::io::ErrorKind::InvalidData => {}
                    (r, want) => fail!("to_string at {}: {}, expected {}", self.pos, short(&r), short(&want)),
                }
            }
            3 => {
                let cancelled = s.chance(1, 4);
                ctx.log(format!("next block at {}{}", self.pos, if cancelled { ", perhaps cancelled" } else { "" }));
                let r = match &mut reader {
                    Reader::B(r) => r.next(),
                    Reader::A(r) if cancelled => match rt().block_on(once(r.next())) {
                        Some(r) => r,
                        None => {
                            ctx.count("cancelled reads");
                            self.reader = Some(reader);
                            return Ok(true);
                        }
                    },
                    Reader::A(r) => rt().block_on(r.next()),
                };
                match r {
                    Some(Ok(b)) => {
                        ensure!(b.len() <= self.block, "a block of {} bytes", b.len());
                        self.got("next block", &b)?;
                    }
                    Some(Err(e)) => return self.failed("next block", e),
                    None => ensure!(left == 0, "no next block at {} of {}", self.pos, self.data.len()),
                }
            }
            4 => {
                let (len, pos) = (self.data.len() as i64, self.pos as i64);
                let (to, seek) = match s.draw(4) {
                    0 => {
                        let n = s.draw(len as u64 + 3) as i64;
                        (n, SeekFrom::Start(n as u64))
                    }
                    1 => {
                        let n = s.irange(-len - 2, 3);
                        (len + n, SeekFrom::End(n))
                    }
                    2 => {
                        let n = s.irange(-pos - 2, len - pos + 3);
                        (pos + n, SeekFrom::Current(n))
                    }
                    3 => *s.pick(&[
                        (len, SeekFrom::Start(u64::MAX)),
                        (-1, SeekFrom::End(i64::MIN)),
                        (len, SeekFrom::End(i64::MAX)),
                        (-1, SeekFrom::Current(i64::MIN)),
                        (len, SeekFrom::Current(i64::MAX)),
                    ]),
                    _ => (pos, SeekFrom::Current(0)),
                };
                ctx.log(format!("{seek:?} at {} of {len}", self.pos));
                let r = match &mut reader {
                    Reader::B(r) if seek == SeekFrom::Current(0) => r.stream_position(),
                    Reader::B(r) => r.seek(seek),
                    Reader::A(r) if seek == SeekFrom::Current(0) => rt().block_on(r.stream_position()),
                    Reader::A(r) => rt().block_on(AsyncSeekExt::seek(r, seek)),
                };
                if to < 0 && len > 0 {
                    ensure!(r.is_err(), "{seek:?} at {pos} of {len}: {r:?}");
                } else if let Err(_) = &r {
                    // an empty file has only one position
                    ensure!(to < 0, "{seek:?} at {pos} of {len}: {r:?}");
                } else {
                    self.pos = to.clamp(0, len) as usize;
                    ensure_eq!(r.or_fail("seek")?, self.pos as u64, "{seek:?} at {pos} of {len}");
                }
            }
            5 => {
                let (len, empty, last) = match &reader {
                    Reader::B(r) => (r.len(), r.is_empty(), r.last_appended_at()),
                    Reader::A(r) => (r.len(), r.is_empty(), r.last_appended_at()),
                };
                ensure_eq!((len, empty, last.is_none()), (self.data.len() as u64, self.data.is_empty(), self.data.is_empty()), "length of the contents");
            }
            _ => {
                reader = match reader {
                    Reader::B(r) => Reader::B(r.clone()),
                    Reader::A(r) => Reader::A(r.clone()),
                };
            }
        }
        self.reader = Some(reader);
        Ok(true)
    }
}
/// Polls once: None if it has to wait.
async fn once<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    std::future::poll_fn(move |cx| {
        Poll::Ready(match f.as_mut().poll(cx) {
            Poll::Ready(r) => Some(r),
            Poll::Pending => None,
        })
    })
    .await
}

// ---------- sections ----------

fn filer(n: usize) -> Box<dyn Filer> {
    match n {
        0 => Box::new(Fs::<Cfg<7>>::new()),
        1 => Box::new(Fs::<Cfg<64>>::new()),
        2 => Box::new(Fs::<Cfg<1>>::new()),
        3 => Box::new(Fs::<Cfg<4096>>::new()),
        _ => Box::new(Fs::<Cfg<HUGE>>::new()),
    }
}
fn histories(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let path = scratch.path("files");
    let (mut storage, db) = open(&path)?;
    let mut w = Some(Dbs { adb: db.clone().into_async_with_runtime(rt().handle().clone()), db });
    let first = s.weighted(&[4, 3, 2, 2, 1]);
    let mut filers = vec![filer(first)];
    if s.chance(1, 3) {
        filers.push(filer((first + 1 + s.below(4)) % 5));
    }
    let steps = 4 + s.draw(36);
    for _ in 0..steps {
        let f = s.below(filers.len());
        filers[f].step(s, w.as_ref().expect("HARNESS: open"), ctx)?;
        if s.chance(1, 40) && filers.iter_mut().all(|f| f.release()) {
            ctx.log("reopen");
            ctx.count("reopened");
            w = None;
            drop(storage);
            let (st, db) = open(&path)?;
            storage = st;
            w = Some(Dbs { adb: db.clone().into_async_with_runtime(rt().handle().clone()), db });
        }
    }
    for f in &mut filers {
        f.check(s, w.as_ref().expect("HARNESS: open"))?;
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Race {
    /// Appends a record to the shared file.
    Append(u8),
    /// Reads the shared file, which consists of whole records.
    Read,
    Length,
    LoadOrCreate(u8, bool),
    Create(u8),
    /// Renames a file of this thread.
    Rename(u8),
    /// Appends to a file others delete.
    AppendDoomed(u8),
    DeleteDoomed,
    TruncateDoomed,
}
#[derive(Default, Debug)]
struct Raced {
    records: Vec<Vec<u8>>,
    created: BTreeMap<u8, Vec<u32>>,
    loaded: BTreeMap<u8, Vec<u32>>,
    renamed: BTreeMap<u8, Vec<u32>>,
}
type Racer = Cfg<7>;
fn records(bytes: &[u8], threads: usize) -> Res<Vec<Vec<Vec<u8>>>> {
    let mut per = vec![vec![]; threads];
    let mut rest = bytes;
    while let [t, seq, len, ..] = rest {
        let len = *len as usize + 3;
        ensure!((*t as usize) < threads && rest.len() >= len, "the shared file contains a torn record at {}: {}", bytes.len() - rest.len(), short(&rest));
        ensure!(rest[3..len].iter().all(|b| *b == t ^ seq), "the shared file contains a mixed record at {}: {}", bytes.len() - rest.len(), short(&rest));
        ensure_eq!(per[*t as usize].len(), *seq as usize, "position of a record of thread {t}");
        per[*t as usize].push(rest[..len].to_vec());
        rest = &rest[len..];
    }
    ensure!(rest.is_empty(), "the shared file ends with {rest:?}");
    Ok(per)
}
fn race(t: usize, threads: usize, plan: &[Race], w: &Dbs, use_async: bool) -> Res<Raced> {
    let mut out = Raced::default();
    let mut shared = Racer::load("/shared", &w.db).or_fail("load")?.ok_or_else(|| Failure::new("no file: the shared file exists"))?;
    let shared_async = rt().block_on(Racer::load_async("/shared", &w.adb)).or_fail("load")?.ok_or_else(|| Failure::new("no file: the shared file exists"))?;
    let mut mine = Racer::load(&format!("/own/{t}"), &w.db).or_fail("load")?.ok_or_else(|| Failure::new("no file: the own file exists"))?;
    let mut seen = 0;
    for op in plan {
        match op {
            Race::Append(len) => {
                let seq = out.records.len() as u8;
                let mut r = vec![t as u8, seq, *len];
                r.resize(3 + *len as usize, t as u8 ^ seq);
                if use_async {
                    rt().block_on(shared_async.append(&r)).or_fail("append")?;
                } else {
                    shared.append(&r).or_fail("append")?;
                }
                out.records.push(r);
            }
            Race::Read => {
                let c = if use_async {
                    rt().block_on(async { shared_async.contents().await.or_fail("contents")?.into_vec().await.or_fail("into_vec") })?
                } else {
                    shared.contents().or_fail("contents")?.into_vec().or_fail("into_vec")?
                };
                let per = records(&c, threads)?;
                ensure_eq!(per[t], out.records, "the own records which the shared file shows");
                ensure!(c.len() >= seen, "the shared file shrank from {seen} to {}", c.len());
                seen = c.len();
            }
            Race::Length => {
                let n = shared.len().or_fail("len")? as usize;
                ensure!(n >= seen.max(out.records.iter().map(Vec::len).sum()), "the length of the shared file is {n}, but was {seen}");
                seen = n;
            }
            Race::LoadOrCreate(n, expect) => {
                let path = format!("/new/{n}");
                let id = if use_async { rt().block_on(Racer::load_or_create_async(&path, *expect, &w.adb)).map(|f| f.id()) } else { Racer::load_or_create(&path, *expect, &w.db).map(|f| f.id()) };
                out.loaded.entry(*n).or_default().push(id.or_fail("load_or_create")?);
            }
            Race::Create(n) => match Racer::build(format!("/new/{n}")).contents(b"once").create(&w.db) {
                Ok(f) => out.created.entry(*n).or_default().push(f.id()),
                Err(Error::AlreadyExists) => {}
                Err(e) => fail!("create: {e:?}"),
            },
            Race::Rename(n) => match mine.rename(format!("n{n}")) {
                Ok(()) => out.renamed.entry(*n).or_default().push(mine.id()),
                Err(Error::AlreadyExists) => {}
                Err(e) => fail!("rename: {e:?}"),
            },
            Race::AppendDoomed(n) => {
                if let Ok(f) = Racer::load_or_create("/doomed", n % 2 == 0, &w.db) {
                    // fails if it was deleted in between
                    let _ = f.append(&vec![b'd'; *n as usize]);
                }
            }
            Race::DeleteDoomed => {
                let _ = Racer::delete("/doomed", &w.db);
            }
            Race::TruncateDoomed => {
                if let Some(f) = Racer::load("/doomed", &w.db).or_fail("load")? {
                    let _ = f.truncate(0, Truncate::RemovingEnd);
                }
            }
        }
    }
    Ok(out)
}
fn racing(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let (_storage, db) = open(&scratch.path("files"))?;
    let w = Dbs { adb: db.clone().into_async_with_runtime(rt().handle().clone()), db };
    let threads = 2 + s.below(3);
    Racer::build("/shared").create(&w.db).or_fail("create")?;
    for t in 0..threads {
        Racer::build(format!("/own/{t}")).create(&w.db).or_fail("create")?;
    }
    if s.bool() {
        // the view of the blocks was used before
        Racer::stats(&w.db).or_fail("stats")?;
    }
    let doomed = s.bool();
    let plans: Vec<(bool, Vec<Race>)> = (0..threads)
        .map(|_| {
            let use_async = s.chance(1, 3);
            let plan = s.list(1, 14, 8, |s| match s.weighted(&[6, 3, 3, 2, 2, 2, if doomed { 5 } else { 0 }, if doomed { 4 } else { 0 }, if doomed { 1 } else { 0 }]) {
                0 => Race::Append(s.draw(30) as u8),
                1 => Race::Read,
                2 => Race::Length,
                3 => Race::LoadOrCreate(s.draw(2) as u8, s.bool()),
                4 => Race::Create(s.draw(2) as u8),
                5 => Race::Rename(s.draw(2) as u8),
                6 => Race::AppendDoomed(1 + s.draw(20) as u8),
                7 => Race::DeleteDoomed,
                _ => Race::TruncateDoomed,
            });
            (use_async, plan)
        })
        .collect();
    for (t, p) in plans.iter().enumerate() {
        ctx.log(format!("thread {t}: {}", short(&p)));
    }
    let barrier = std::sync::Barrier::new(threads);
    let results: Vec<Res<Raced>> = std::thread::scope(|scope| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, (use_async, plan))| {
                let (w, barrier) = (&w, &barrier);
                scope.spawn(move || {
                    barrier.wait();
                    match catch(|| race(t, threads, plan, w, *use_async)) {
                        Ok(r) => r,
                        Err(p) => Err(Failure::new(format!("thread {t} panicked: {p}"))),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("HARNESS: thread")).collect()
    });
    let results = results.into_iter().collect::<Res<Vec<Raced>>>()?;
    let shared = Racer::load("/shared", &w.db).or_fail("load")?.ok_or_else(|| Failure::new("no file: the shared file exists"))?;
    let c = shared.contents().or_fail("contents")?.into_vec().or_fail("into_vec")?;
    let per = records(&c, threads)?;
    for (t, r) in results.iter().enumerate() {
        ensure_eq!(per[t], r.records, "records of thread {t} in the shared file");
    }
    if results.iter().filter(|r| !r.records.is_empty()).count() > 1 {
        ctx.nontrivial();
    }
    for n in 0..3u8 {
        let created: Vec<u32> = results.iter().flat_map(|r| r.created.get(&n).cloned().unwrap_or_default()).collect();
        let loaded: BTreeSet<u32> = results.iter().flat_map(|r| r.loaded.get(&n).cloned().unwrap_or_default()).collect();
        ensure!(created.len() <= 1, "/new/{n} was created {} times", created.len());
        ensure!(loaded.len() <= 1 && created.iter().all(|c| loaded.is_empty() || loaded.contains(c)), "/new/{n} has the ids {created:?} and {loaded:?}");
        let id = Racer::load(&format!("/new/{n}"), &w.db).or_fail("load")?.map(|f| f.id());
        if let Some(want) = created.first().or(loaded.first()) {
            ensure_eq!(id, Some(*want), "id of /new/{n}");
        }
        // only the last name of a file counts
        if let Some(f) = Racer::load(&format!("/own/n{n}"), &w.db).or_fail("load")? {
            ensure!(results.iter().any(|r| r.renamed.get(&n).map_or(false, |v| v.contains(&f.id()))), "/own/n{n} is file {}, which was not renamed to it", f.id());
        }
    }
    ensure_eq!(Racer::list("/own", &w.db).or_fail("list")?.len(), threads, "number of files in /own");
    let all: BTreeMap<u32, String> = Racer::list_recursive("/", &w.db).or_fail("list_recursive")?.into_iter().map(|f| (f.id(), f.path())).collect();
    let paths: BTreeSet<&String> = all.values().collect();
    ensure_eq!(paths.len(), all.len(), "files share a path: {all:?}");
    let mut total = 0;
    for d in w.db.list_from_collection(Range { start: Bound::Unbounded, end: Bound::Unbounded }, Sort::Ascending, None, &Racer::blocks_name()).or_fail("list_from_collection")? {
        let n = d.contents.len() - 12;
        let id = u32::from_be_bytes(d.contents[n..n + 4].try_into().expect("HARNESS: length"));
        ensure!(all.contains_key(&id), "data of file {id}, which was deleted, is still stored");
        total += n as u64;
    }
    let stats = Racer::stats(&w.db).or_fail("stats")?;
    ensure_eq!((stats.file_count, stats.total_bytes), (all.len(), total), "statistics");
    Ok(())
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        level: "exploration",
        rule: "a file with contents was read in pieces, or several threads appended",
        assumptions: &[
            "Paths have no empty components and no NUL characters.",
            "Whether a recursive listing of a path without trailing slash covers siblings with that prefix is not specified.",
            "Storages are not reopened after transactions of more than a dozen blocks (known finding of C03).",
        ],
        sections: vec![section("histories", 2_000, 100_000, histories).threads(8), section("racing", 300, 15_000, racing).threads(4)],
    }
}
