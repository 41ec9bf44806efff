//! Images of a storage as a crash would leave it, opened again (C12).
//!
//! The calls with which this process changes files are intercepted here. At
//! generated calls, before or in the middle of them, the files of a storage in
//! use are copied: that copy is what the file system holds if the process is
//! killed at that instant. For a loss of power, the parts of files which were
//! written but never synchronised are cut off or overwritten with zeros too.
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock};

use bonsaidb_core::connection::{Connection, LowLevelConnection, Range, Sort, StorageConnection};
use bonsaidb_core::document::{DocumentId, Header};
use bonsaidb_core::Error;
use bonsaidb_local::config::{Builder, KeyValuePersistence, PersistenceThreshold};
use bonsaidb_local::Storage;

use crate::engine::*;
use crate::fix::*;
use crate::hist::{gen_bulk, gen_key, gen_ops, LogEntry, Opener, Via, World};
use crate::kv::{KModel, KvKey};
use crate::storage::{gen_variant, variant_config, Variant};
use crate::{ensure, fail};

// ---------- interception ----------

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
}
const SYS_WRITE: c_long = 1;
const SYS_FSYNC: c_long = 74;
const SYS_FDATASYNC: c_long = 75;
const SYS_FTRUNCATE: c_long = 77;
const SYS_RENAME: c_long = 82;
const SYS_UNLINK: c_long = 87;

static WATCHED: AtomicUsize = AtomicUsize::new(0);
static ROOTS: RwLock<Vec<(PathBuf, Arc<Mutex<Recorder>>)>> = RwLock::new(Vec::new());
thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
struct Inside;
impl Inside {
    /// None if this thread is inside already, or nothing is watched.
    fn enter() -> Option<Inside> {
        if WATCHED.load(Ordering::Acquire) == 0 {
            return None;
        }
        INSIDE.try_with(|i| if i.replace(true) { None } else { Some(Inside) }).ok().flatten()
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        let _ = INSIDE.try_with(|i| i.set(false));
    }
}
fn watcher(path: &Path) -> Option<Arc<Mutex<Recorder>>> {
    let roots = ROOTS.read().ok()?;
    roots.iter().find(|(r, _)| path.starts_with(r)).map(|(_, w)| w.clone())
}
fn of_fd(fd: c_int) -> Option<(PathBuf, Arc<Mutex<Recorder>>)> {
    let path = std::fs::read_link(format!("/proc/self/fd/{fd}")).ok()?;
    let w = watcher(&path)?;
    Some((path, w))
}
unsafe fn of_path(p: *const c_char) -> Option<(PathBuf, Arc<Mutex<Recorder>>)> {
    let path = PathBuf::from(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()));
    let w = watcher(&path)?;
    Some((path, w))
}
macro_rules! intercept {
    ($found:expr, $before:expr, $call:expr) => {{
        let inside = Inside::enter();
        if inside.is_some() {
            if let Some((path, w)) = $found {
                if let Ok(mut w) = w.lock() {
                    #[allow(clippy::redundant_closure_call)]
                    ($before)(&mut *w, &path);
                    let r = $call;
                    return r as _;
                }
            }
        }
        drop(inside);
        $call as _
    }};
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    intercept!(
        of_fd(fd),
        |w: &mut Recorder, p: &Path| w.event(Event::Write(p, std::slice::from_raw_parts(buf.cast(), n))),
        syscall(SYS_WRITE, fd as c_long, buf, n)
    )
}
unsafe fn sync(call: c_long, fd: c_int) -> c_int {
    let inside = Inside::enter();
    if inside.is_some() {
        if let Some((path, w)) = of_fd(fd) {
            if let Ok(mut w) = w.lock() {
                w.event(Event::Sync(&path));
                let r = syscall(call, fd as c_long) as c_int;
                if r == 0 {
                    if let Ok(m) = std::fs::metadata(&path) {
                        w.durable.insert(m.ino(), m.len());
                        w.writes.remove(&m.ino());
                    }
                }
                return r;
            }
        }
    }
    drop(inside);
    syscall(call, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync(SYS_FSYNC, fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(SYS_FDATASYNC, fd)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    intercept!(of_fd(fd), |w: &mut Recorder, p: &Path| w.event(Event::Other("truncate", p)), syscall(SYS_FTRUNCATE, fd as c_long, len))
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    intercept!(of_path(from), |w: &mut Recorder, p: &Path| w.event(Event::Other("rename", p)), syscall(SYS_RENAME, from, to))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    intercept!(
        of_path(path),
        |w: &mut Recorder, p: &Path| {
            w.event(Event::Other("unlink", p));
            if let Ok(m) = std::fs::symlink_metadata(p) {
                if m.nlink() == 1 {
                    w.durable.remove(&m.ino());
                    w.writes.remove(&m.ino());
                }
            }
        },
        syscall(SYS_UNLINK, path)
    )
}

enum Event<'a> {
    Write(&'a Path, &'a [u8]),
    Sync(&'a Path),
    Other(&'static str, &'a Path),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Loss {
    /// The process is killed: what was written stays.
    Kill,
    /// Unsynchronised tails are lost from some point on.
    Cut,
    /// Unsynchronised tails read as zeros from some point on.
    Zeros,
}
struct Trigger {
    /// Counts only calls on files with this name.
    on: Option<&'static str>,
    calls: u64,
    loss: Loss,
    /// Thousandths of a write which happen.
    part: u64,
}
pub struct Recorder {
    root: PathBuf,
    rng: Rng,
    calls: u64,
    /// Lengths known to be on the disk.
    durable: BTreeMap<u64, u64>,
    /// Lengths after each write since.
    writes: BTreeMap<u64, Vec<u64>>,
    armed: Vec<Trigger>,
    images: Vec<Image>,
    /// Operations which were started and which have returned.
    begun: usize,
    acked: usize,
    kv_begun: usize,
}
/// What an image holds that nebari is known not to recover from.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
enum Hazard {
    None,
    /// A tree ends with what a transaction wrote which was never logged. Its id
    /// is given out again; once it is in the log, that part of the tree counts.
    Orphan { read_by_listing: bool },
    /// A log was begun and none of it is left.
    EmptyLog,
    /// A tree ends in the middle of one of its headers.
    Torn,
    /// It cannot be told, since the files are encrypted or compressed.
    Unknown,
}
/// The id of the last transaction of a log.
fn last_logged(log: &[u8]) -> u64 {
    let mut page = log.len() / 1024;
    while page > 0 {
        page -= 1;
        let p = &log[page * 1024..(page + 1) * 1024];
        if p[0] == 1 {
            return u64::from_be_bytes(p[4..12].try_into().expect("HARNESS: slice"));
        }
    }
    0
}
/// Whether the last header of a tree is cut off by the end of the file.
fn torn(b: &[u8]) -> bool {
    let mut at = b.len().saturating_sub(1) / 256 * 256;
    loop {
        if b.len() >= at + 4 && &b[at..at + 3] == b"Nbr" && (b[at + 3] == 2 || b[at + 3] == 3) {
            return match b.get(at + 4..at + 8) {
                Some(n) => at + 12 + u32::from_be_bytes(n.try_into().expect("HARNESS: slice")) as usize > b.len(),
                None => true,
            };
        }
        if at == 0 {
            return false;
        }
        at -= 256;
    }
}
/// Whether a tree ends with unlogged transactions.
fn orphaned(b: &[u8], logged: u64) -> bool {
    let mut at = b.len() / 256 * 256;
    let mut orphan = false;
    loop {
        if b.len() >= at + 20 && &b[at..at + 3] == b"Nbr" && (b[at + 3] == 2 || b[at + 3] == 3) {
            let id = u64::from_be_bytes(b[at + 12..at + 20].try_into().expect("HARNESS: slice"));
            if id <= logged {
                return orphan;
            }
            orphan = true;
        }
        if at == 0 {
            return orphan;
        }
        at -= 256;
    }
}
fn find_hazard(root: &Path, plain: bool) -> Hazard {
    if !plain {
        return Hazard::Unknown;
    }
    let mut worst = Hazard::None;
    let mut files = vec![];
    walk(root, &mut files);
    for (f, _) in &files {
        let name = f.file_name().and_then(|n| n.to_str()).unwrap_or_default();
        let Ok(b) = std::fs::read(f) else { continue };
        if name == LOG && b.len() >= 1024 && last_logged(&b) == 0 {
            return Hazard::EmptyLog;
        }
        let Some(tree) = name.strip_suffix(".nebari") else { continue };
        let logged = std::fs::read(f.with_file_name("_transactions")).map_or(0, |l| last_logged(&l));
        let h = if torn(&b) {
            Hazard::Torn
        } else if orphaned(&b, logged) {
            Hazard::Orphan { read_by_listing: tree.starts_with("collection.") || tree == "kv" }
        } else {
            Hazard::None
        };
        worst = match (worst, h) {
            (Hazard::Orphan { read_by_listing: a }, Hazard::Orphan { read_by_listing: b }) => Hazard::Orphan { read_by_listing: a && b },
            (a, b) if b > a => b,
            (a, _) => a,
        };
    }
    worst
}
struct Image {
    dir: Scratch,
    acked: usize,
    begun: usize,
    kv_begun: usize,
    what: String,
    loss: Loss,
    /// Something was cut off.
    lost: bool,
}
impl Recorder {
    fn event(&mut self, e: Event<'_>) {
        self.calls += 1;
        if let Event::Write(p, b) = &e {
            if let Ok(m) = std::fs::metadata(p) {
                self.writes.entry(m.ino()).or_default().push(m.len() + b.len() as u64);
            }
        }
        let mut fired = vec![];
        let (Event::Write(p, _) | Event::Sync(p) | Event::Other(_, p)) = &e;
        self.armed.retain_mut(|t| {
            if t.on.is_some_and(|n| !p.ends_with(n)) {
                return true;
            }
            if t.calls == 0 {
                fired.push((t.loss, t.part));
                false
            } else {
                t.calls -= 1;
                true
            }
        });
        for (loss, part) in fired {
            self.image(&e, loss, part);
        }
    }
    fn image(&mut self, e: &Event<'_>, loss: Loss, part: u64) {
        let dir = Scratch::new();
        let (op, at) = match e {
            Event::Write(p, b) => (format!("write of {} bytes", b.len()), *p),
            Event::Sync(p) => ("synchronisation".into(), *p),
            Event::Other(n, p) => (n.to_string(), *p),
        };
        let rel = at.strip_prefix(&self.root).unwrap_or(at).display().to_string();
        let mut what = format!("{op} on {rel}");
        let mut lost = false;
        let extra = match e {
            Event::Write(p, b) if part > 0 => {
                // Pages are written as a whole.
                let at = std::fs::metadata(p).map_or(0, |m| m.len());
                let end = (at + b.len() as u64 * part / 1000) / 4096 * 4096;
                let n = end.saturating_sub(at).min(b.len() as u64) as usize;
                what = format!("{what}, {n} bytes of it done");
                Some((p.to_path_buf(), b[..n].to_vec()))
            }
            _ => None,
        };
        let mut files = vec![];
        walk(&self.root, &mut files);
        for (f, is_dir) in files {
            let to = dir.0.join(f.strip_prefix(&self.root).unwrap_or(&f));
            if is_dir {
                let _ = std::fs::create_dir_all(&to);
                continue;
            }
            let Ok(m) = std::fs::metadata(&f) else { continue };
            let Ok(mut b) = std::fs::read(&f) else { continue };
            if let Some((p, more)) = &extra {
                if *p == f {
                    b.extend_from_slice(more);
                }
            }
            let safe = self.durable.get(&m.ino()).copied().unwrap_or(0).min(b.len() as u64) as usize;
            if loss != Loss::Kill && safe < b.len() {
                let rest = (b.len() - safe) as u64;
                let none = vec![];
                let writes = self.writes.get(&m.ino()).unwrap_or(&none);
                // Writes reach the disk in order, wholly or not at all.
                let end = match self.rng.next() as usize % (writes.len() + 1) {
                    0 => safe as u64,
                    n => writes[n - 1],
                };
                let keep = (end.max(safe as u64) - safe as u64).min(rest) as usize;
                if keep < rest as usize {
                    lost = true;
                    what = format!("{what}; {} of {} bytes at the end of {} are {}", rest as usize - keep, b.len(), f.strip_prefix(&self.root).unwrap_or(&f).display(), if loss == Loss::Cut { "lost" } else { "zeros" });
                    match loss {
                        Loss::Zeros => b[safe + keep..].fill(0),
                        _ => b.truncate(safe + keep),
                    }
                }
            }
            let _ = std::fs::write(&to, &b);
        }
        self.images.push(Image { dir, acked: self.acked, begun: self.begun, kv_begun: self.kv_begun, what, loss, lost });
    }
}
fn walk(dir: &Path, out: &mut Vec<(PathBuf, bool)>) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    let mut names: Vec<_> = entries.flatten().map(|e| e.path()).collect();
    names.sort();
    for p in names {
        let is_dir = p.is_dir();
        out.push((p.clone(), is_dir));
        if is_dir {
            walk(&p, out);
        }
    }
}

fn copy_all(from: &Path, to: &Path) {
    let mut files = vec![];
    walk(from, &mut files);
    for (f, is_dir) in files {
        let to = to.join(f.strip_prefix(from).unwrap_or(&f));
        if is_dir {
            let _ = std::fs::create_dir_all(&to);
        } else {
            let _ = std::fs::copy(&f, &to);
        }
    }
}

/// Watches a directory until dropped.
struct Watch {
    root: PathBuf,
    rec: Arc<Mutex<Recorder>>,
}
impl Watch {
    fn new(root: &Path, seed: u64) -> Self {
        let mut durable = BTreeMap::new();
        let mut files = vec![];
        walk(root, &mut files);
        for (f, is_dir) in files {
            if !is_dir {
                if let Ok(m) = std::fs::metadata(&f) {
                    durable.insert(m.ino(), m.len());
                }
            }
        }
        let rec = Arc::new(Mutex::new(Recorder { root: root.to_path_buf(), rng: Rng::new(seed), calls: 0, durable, writes: BTreeMap::new(), armed: vec![], images: vec![], begun: 0, acked: 0, kv_begun: 0 }));
        ROOTS.write().expect("HARNESS: lock").push((root.to_path_buf(), rec.clone()));
        WATCHED.fetch_add(1, Ordering::AcqRel);
        Watch { root: root.to_path_buf(), rec }
    }
    /// Like an intercepted call: no calls of watched threads meanwhile.
    fn with<T>(&self, f: impl FnOnce(&mut Recorder) -> T) -> T {
        let _inside = Inside::enter();
        f(&mut self.rec.lock().expect("HARNESS: lock"))
    }
    fn arm(&self, s: &mut Source) {
        let log = s.chance(1, 3);
        let t = Trigger { on: log.then_some(LOG), calls: s.draw(if log { 3 } else { 25 }), loss: *s.pick(&[Loss::Kill, Loss::Cut, Loss::Zeros]), part: if s.bool() { 0 } else { s.draw(1000) } };
        self.with(|r| r.armed.push(t));
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        ROOTS.write().expect("HARNESS: lock").retain(|(r, _)| *r != self.root);
        WATCHED.fetch_sub(1, Ordering::AcqRel);
    }
}

// ---------- histories ----------

/// What a world was after some operation.
#[derive(Clone)]
struct State {
    exists: bool,
    model: Model,
    history: Vec<(Col, Header)>,
    log: Vec<LogEntry>,
    log_ids: Vec<u64>,
    unordered: BTreeSet<usize>,
    wide: bool,
}
impl State {
    fn of(w: &World) -> Self {
        State { exists: true, model: w.model.clone(), history: w.history.clone(), log: w.log.clone(), log_ids: w.log_ids.clone(), unordered: w.unordered.clone(), wide: w.wide }
    }
}
struct KvState {
    keys: KModel,
    events: BTreeMap<KvKey, Vec<bool>>,
}
#[derive(Clone)]
struct Settings {
    variant: Variant,
    kv: Option<KeyValuePersistence>,
}
fn opener(set: &Settings) -> Opener {
    let set = set.clone();
    Arc::new(move |p: &Path| {
        let mut c = variant_config(p, set.variant);
        if let Some(kv) = &set.kv {
            c = c.key_value_persistence(kv.clone());
        }
        Storage::open(c).or_fail("opening storage")
    })
}

const LOG: &str = "_transactions";
const FILE: &str = "db.bonsaidb";
fn create(storage: &Storage, secret: bool) -> Result<bonsaidb_local::Database, Error> {
    if secret {
        storage.create_database::<Vaulted>("main", false)
    } else {
        storage.create_database::<Main>("main", false)
    }
}
fn find(storage: &Storage, secret: bool) -> Result<bonsaidb_local::Database, Error> {
    if secret {
        storage.database::<Vaulted>("main")
    } else {
        storage.database::<Main>("main")
    }
}

fn crashes(s: &mut Source, ctx: &mut Ctx) -> Res {
    let secret = s.chance(1, 3);
    let variant = if secret { gen_variant(s) } else { Variant::default() };
    let kv = match s.draw(3) {
        0 => None,
        1 => Some(KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1 + s.draw(3) as usize)])),
        _ => Some(KeyValuePersistence::default()),
    };
    let set = Settings { variant, kv };
    let scratch = Scratch::new();
    ctx.log(format!("{}, {:?}, key-values {:?}", if secret { "encrypted collection" } else { "plain" }, set.variant, set.kv));
    run(s, ctx, &set, secret, &scratch, None, 0)
}

/// A history with images taken of it, each of which is then recovered.
fn run(s: &mut Source, ctx: &mut Ctx, set: &Settings, secret: bool, dir: &Scratch, from: Option<(Vec<State>, Vec<KvState>, usize)>, depth: usize) -> Res {
    let opener = opener(set);
    let watch = Watch::new(&dir.0, s.fork_seed());
    let max = if depth == 0 { 1 + s.draw(4) as usize } else { s.draw(1) as usize };
    let mut states = vec![];
    let mut kvs = vec![];
    let mut recovered = false;
    let (start, kv_start) = match from {
        None => {
            states.push(State { exists: false, model: Model { secret, ..Model::default() }, history: vec![], log: vec![], log_ids: vec![], unordered: BTreeSet::new(), wide: false });
            kvs.push(KvState { keys: KModel::default(), events: BTreeMap::new() });
            (0, 0)
        }
        Some((st, kv, n)) => {
            recovered = true;
            states = st;
            kvs = kv;
            (n, kvs.len() - 1)
        }
    };
    // Before anything else: creation, or recovery.
    watch.with(|r| {
        r.acked = 0;
        r.begun = states.len();
        r.kv_begun = kv_start;
    });
    let mut taken = 0;
    if max > 0 && s.chance(1, if depth == 0 { 12 } else { 3 }) {
        watch.arm(s);
        taken += 1;
    }
    let hazard = if recovered { find_hazard(&dir.0, !secret || set.variant == Variant::default()) } else { Hazard::None };
    if recovered {
        ctx.count(match hazard {
            Hazard::None => "images_recovered_fully",
            Hazard::Orphan { read_by_listing: true } => "images_written_to",
            _ => "images_only_read",
        });
    }
    let storage = opener(&dir.path(FILE)).map_err(|e| Failure::sig(&e.sig, format!("opening: {}", e.msg)))?;
    let mut created = false;
    let db = match find(&storage, secret) {
        Ok(db) => db,
        Err(Error::DatabaseNotFound(_)) => {
            created = true;
            ensure!(states[..=start].iter().any(|s| !s.exists), "the database is gone");
            create(&storage, secret).or_fail("create_database")?
        }
        Err(e) => fail!("opening the database: {e:?}"),
    };
    let mut w = World::around(storage, db, secret);
    w.opener = opener.clone();
    if recovered {
        settle(&mut w, &states[..=start], &kvs, ctx)?;
        w.check_log(s, ctx)?;
        if !matches!(hazard, Hazard::None | Hazard::Orphan { read_by_listing: true }) {
            return Ok(());
        }
        w.check_views("after a crash")?;
        // Candidates are decided from here on.
    }
    states = vec![State::of(&w)];
    kvs = vec![KvState { keys: w.kv.clone(), events: w.kv_events.clone() }];
    if created {
        states.insert(0, State { exists: false, ..State::of(&w) });
    }
    let first = states.len() - 1;
    watch.with(|r| {
        // Images of the opening may be of any of the states before.
        for i in &mut r.images {
            i.acked = 0;
            i.begun = first;
            i.kv_begun = 0;
        }
        r.acked = first;
        r.begun = first;
        r.kv_begun = 0;
    });
    let n = if depth == 0 { 3 + s.draw(20) } else { 1 + s.draw(6) } as usize;
    if depth == 0 && s.chance(4, 5) {
        // Trees with something in them.
        let ops: Vec<Op> = w.model.all_cols().iter().map(|c| Op::Overwrite { col: *c, id: gen_id(s, *c), contents: gen_contents(s, *c) }).collect();
        ctx.log(format!("first [{}]", ops.iter().map(Op::show).collect::<Vec<_>>().join("; ")));
        w.tx(&ops, Via::Transaction, ctx)?;
        if s.chance(2, 3) {
            w.check_views("first")?;
        }
        states.push(State::of(&w));
        watch.with(|r| {
            r.acked = states.len() - 1;
            r.begun = states.len() - 1;
        });
    }
    for i in 0..n {
        if !s.more(14, i, n) || w.wide {
            break;
        }
        if taken < max && s.chance(1, 3) {
            watch.arm(s);
            taken += 1;
        }
        watch.with(|r| r.begun = states.len());
        one(s, &mut w, &mut kvs, &watch, hazard == Hazard::None, ctx)?;
        states.push(State::of(&w));
        watch.with(|r| r.acked = states.len() - 1);
    }
    if taken == 0 && max > 0 {
        watch.arm(s);
    }
    // Whatever is armed still fires while closing, or now.
    w.check_all("before closing")?;
    if hazard != Hazard::None {
        return Ok(());
    }
    if recovered && !w.wide {
        w.reopen()?;
        w.check_all("after reopening once more")?;
        w.check_views("after reopening once more")?;
        w.check_log(s, ctx)?;
    }
    drop(w);
    let images = watch.with(|r| {
        let left: Vec<(Loss, u64)> = r.armed.drain(..).map(|t| (t.loss, 0)).take(1).collect();
        let root = r.root.clone();
        for (loss, _) in left {
            r.image(&Event::Other("nothing", &root), loss, 0);
        }
        std::mem::take(&mut r.images)
    });
    drop(watch);
    for image in images {
        let range = &states[image.acked..=image.begun.min(states.len() - 1)];
        if range.iter().any(|s| s.wide) {
            ctx.count("images_behind_wide_log_entries");
            continue;
        }
        if range.iter().any(|s| !s.exists) && find_hazard(&image.dir.0, true) != Hazard::None {
            // Nothing was in the storage yet.
            ctx.count("images_of_unfinished_creations_left_out");
            continue;
        }
        match find_hazard(&image.dir.0, true) {
            Hazard::EmptyLog => {
                ctx.count("images_with_an_empty_log_left_out");
                continue;
            }
            Hazard::Torn => {
                ctx.count("images_with_a_torn_header_left_out");
                continue;
            }
            _ => (),
        }
        let wait = image.begun - image.acked;
        ctx.log(format!("crash during operation {} ({:?}): {}", image.begun, image.loss, image.what));
        ctx.count("images");
        if wait > 0 {
            ctx.count("images_within_operations");
            ctx.nontrivial();
        }
        if image.lost {
            ctx.count("images_with_lost_tails");
        }
        if depth > 0 {
            ctx.count("images_after_a_recovery");
        }
        let range = range.to_vec();
        let k = kvs.iter().take(image.kv_begun + 1).map(|k| KvState { keys: k.keys.clone(), events: k.events.clone() }).collect();
        let last = range.len() - 1;
        run(s, ctx, set, secret, &image.dir, Some((range, k, last)), depth + 1)?;
    }
    Ok(())
}

/// Finds which state a recovered database is in.
fn settle(w: &mut World, states: &[State], kvs: &[KvState], ctx: &mut Ctx) -> Res {
    let mut docs = vec![];
    for c in w.model.all_cols().iter().copied() {
        let got = w.db().list_from_collection(Range::from(..), Sort::Ascending, None, &c.name()).or_fail(format!("listing {c:?} after a crash"))?;
        docs.push((c, got));
    }
    let mut first = None;
    let mut found = vec![];
    for (i, st) in states.iter().enumerate() {
        let r = docs.iter().try_for_each(|(c, got)| check_docs(&format!("after a crash: documents of {c:?}"), got, st.model.col(*c).iter()));
        match r {
            Ok(()) => found.push(i),
            Err(e) => first = Some(first.unwrap_or(e)),
        }
    }
    // A transaction may leave the documents as they were.
    let logged = w.db().list_executed_transactions(None, Some(1000)).or_fail("list_executed_transactions")?;
    let logged = logged.iter().filter(|t| t.changes.documents().is_some_and(|d| !d.documents.is_empty())).count();
    let by_log = found.iter().copied().find(|i| states[*i].log.iter().filter(|e| !e.is_empty()).count() == logged);
    let Some(i) = by_log.or(found.first().copied()) else {
        let e = first.expect("HARNESS: no states");
        return Err(Failure::sig("neither-before-nor-after", format!("the documents are those of none of the {} possible states: {}", states.len(), e.msg)));
    };
    if states.len() > 1 && states[0].log.len() != states[states.len() - 1].log.len() {
        ctx.count(if i == 0 { "unacknowledged_absent" } else { "unacknowledged_present" });
    }
    let st = states[i].clone();
    w.model = st.model;
    w.history = st.history;
    w.log = st.log;
    w.log_ids = st.log_ids;
    w.unordered = st.unordered;
    // Headers may come again, so stale ones may be current ones.
    let mut found = None;
    for (i, k) in kvs.iter().enumerate().rev() {
        w.kv = k.keys.clone();
        w.kv_events = k.events.clone();
        if w.kv_check("after a crash").is_ok() {
            found = Some(i);
            break;
        }
    }
    if found.is_none() {
        let last = kvs.last().expect("HARNESS: no states");
        w.kv = last.keys.clone();
        w.kv_events = last.events.clone();
        w.kv_check("after a crash, in no state between two operations; compared with the last").map_err(|e| Failure::sig("keys-in-no-earlier-state", e.msg))?;
    }
    for v in VIEWS {
        let now = w.model.view(v);
        // Views were last brought up to date at some time before.
        let mut all: Vec<_> = vec![BTreeMap::new()];
        all.push(now);
        w.stale.insert(v, all);
    }
    ctx.count("recoveries");
    Ok(())
}

fn one(s: &mut Source, w: &mut World, kvs: &mut Vec<KvState>, watch: &Watch, reopen: bool, ctx: &mut Ctx) -> Res {
    match s.weighted(&[8, 8, 3, 3, 1, u64::from(reopen), 1]) {
        0 | 1 => {
            let far = DocumentId::from_u64(u64::MAX - 16);
            let ops = if s.bool() {
                s.list(1, 5, 3, |s| {
                    let col = gen_col(s, &w.model);
                    let ids: Vec<_> = w.model.col(col).keys().cloned().collect();
                    match s.draw(3) {
                        0 if !ids.is_empty() => Op::Delete { col, header: w.model.header(col, s.pick(&ids)).expect("HARNESS: header") },
                        1 if col == Col::Item && w.history.iter().all(|(c, h)| *c != col || *h.id < *far) => {
                            // Its id is only known if it succeeds.
                            let item = Item { text: "t".into(), ..gen_item(s) };
                            Op::Insert { col, id: None, contents: item_bytes(&item) }
                        }
                        _ => Op::Overwrite { col, id: if col == Col::Item { DocumentId::from_u64(s.draw(20)) } else { gen_id(s, col) }, contents: gen_contents(s, col) },
                    }
                })
            } else {
                gen_ops(s, w, 4)
            };
            ctx.log(format!("transaction [{}]", ops.iter().map(Op::show).collect::<Vec<_>>().join("; ")));
            w.tx(&ops, Via::Transaction, ctx)?;
        }
        2 => {
            let v = *s.pick(w.model.all_views());
            let key = gen_key(s, w, v);
            ctx.log(format!("query {v:?} {key:?}"));
            w.query(v, key, Sort::Ascending, None, bonsaidb_core::connection::AccessPolicy::UpdateBefore, "query")?;
        }
        3 => {
            watch.with(|r| r.kv_begun = kvs.len());
            w.kv_step(s, ctx)?;
            kvs.push(KvState { keys: w.kv.clone(), events: w.kv_events.clone() });
        }
        4 => {
            ctx.log("compact");
            ctx.count("compactions");
            match s.draw(2) {
                0 => w.db().compact().or_fail("compact")?,
                1 => w.db().compact_key_value_store().or_fail("compact")?,
                _ => {
                    let c = gen_col(s, &w.model);
                    w.db().compact_collection_by_name(c.name()).or_fail("compact_collection")?
                }
            }
        }
        5 => {
            ctx.log("reopen");
            w.reopen()?;
        }
        _ => {
            let ops: Vec<Op> = gen_bulk(s, w).into_iter().take(12).collect();
            ctx.log(format!("bulk of {} on {:?}", ops.len(), ops[0].col()));
            w.tx(&ops, Via::Transaction, ctx)?;
        }
    }
    Ok(())
}

/// Known: what nebari 0.5.5 does not recover from.
fn known(s: &mut Source, ctx: &mut Ctx) -> Res {
    ctx.nontrivial();
    let set = Settings { variant: Variant::default(), kv: None };
    let opener = opener(&set);
    let scratch = Scratch::new();
    let case = s.below(3);
    let insert = |db: &bonsaidb_local::Database, n: u64| {
        let t = bonsaidb_core::transaction::Transaction::insert(Col::Item.name(), Some(DocumentId::from_u64(n)), item_bytes(&Item::default()));
        t.apply(db).or_fail("insert")
    };
    let count_items = |db: &bonsaidb_local::Database| db.count_from_collection(Range::from(..), &Col::Item.name());
    let count = |db: &bonsaidb_local::Database| count_items(db).or_fail("count");
    if case == 2 {
        // The write of a tree's header stops between two pages.
        let image = Scratch::new();
        {
            let storage = opener(&scratch.path(FILE))?;
            let db = create(&storage, false).or_fail("create_database")?;
            for n in 1.. {
                ensure!(n < 2000, "no header of a tree crosses the end of a page");
                copy_all(&scratch.0, &image.0);
                insert(&db, n)?;
                let mut files = vec![];
                walk(&scratch.0, &mut files);
                let Some((tree, _)) = files.iter().find(|(f, _)| f.to_string_lossy().ends_with("items.nebari")) else { return Err(Failure::new("no tree file")) };
                let b = std::fs::read(tree).or_env("read")?;
                let end = b.len() / 4096 * 4096;
                if n > 1 && torn(&b[..end]) {
                    std::fs::write(image.0.join(tree.strip_prefix(&scratch.0).expect("HARNESS: prefix")), &b[..end]).or_env("write")?;
                    ctx.log(format!("insert {n} stops at byte {end} of {}", tree.display()));
                    break;
                }
            }
        }
        let storage = opener(&image.path(FILE))?;
        let r = find(&storage, false).and_then(|db| count_items(&db));
        return match r {
            Ok(_) => Ok(()),
            Err(e) => Err(Failure::sig("tree-with-torn-header-cannot-be-read", format!("counting: {e:?}"))),
        };
    }
    let image = {
        let storage = opener(&scratch.path(FILE))?;
        let db = create(&storage, false).or_fail("create_database")?;
        if case == 0 {
            insert(&db, 1)?;
        }
        let watch = Watch::new(&scratch.0, 1);
        watch.with(|r| {
            let (on, calls, loss) = match case {
                0 => (LOG, 0, Loss::Kill),
                _ => (LOG, 1, Loss::Zeros),
            };
            r.armed.push(Trigger { on: Some(on), calls, loss, part: 0 });
            r.begun = 1;
        });
        insert(&db, 2)?;
        let mut images = watch.with(|r| std::mem::take(&mut r.images));
        images.pop().ok_or_else(|| Failure::new("no transaction log was written"))?
    };
    let path = image.dir.path(FILE);
    ctx.log(format!("case {case}: {}", image.what));
    match case {
        0 => {
            // The same transaction id is used by another one, for another collection.
            let (storage, db) = {
                let storage = opener(&path)?;
                let db = find(&storage, false).or_fail("database")?;
                (storage, db)
            };
            let before = count(&db)?;
            bonsaidb_core::transaction::Transaction::insert(Col::Raw.name(), Some(DocumentId::from_u64(1)), vec![1]).apply(&db).or_fail("insert")?;
            drop(db);
            drop(storage);
            let storage = opener(&path)?;
            let db = find(&storage, false).or_fail("database")?;
            let after = count(&db)?;
            ensure!(before == 1, "{before} documents after the crash");
            if after != before {
                return Err(Failure::sig("unlogged-transaction-returns-when-its-id-is-reused", format!("{before} documents after the crash, {after} after another transaction and reopening")));
            }
        }
        _ => {
            let storage = opener(&path)?;
            if let Err(e) = find(&storage, false) {
                return Err(Failure::sig("log-of-zeros-cannot-be-opened", format!("opening the database: {e:?}")));
            }
        }
    }
    Ok(())
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        level: "exploration",
        rule: "an image was taken while an operation was under way, opened again and compared",
        assumptions: &[
            "A loss of power keeps at least what was synchronised of each file, in order; directory entries are kept.",
            "Key-values are written in the background: after a crash they are those after some earlier key-value operation.",
            "Databases whose transaction log has an entry of several pages are left out (known finding of C03).",
        ],
        sections: vec![section("crashes", 1500, 80_000, crashes), section("known", 24, 24, known)],
    }
}
