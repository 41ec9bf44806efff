//! Whole storages: backups, compaction, encryption and compression, several
//! databases (C13–C16).
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::admin::{Admin, AuthenticationToken, PermissionGroup, Role, User};
use bonsaidb_core::connection::{AccessPolicy, Connection, LowLevelConnection, Range, Sort, StorageConnection};
use bonsaidb_core::document::{DocumentId, KeyId, Revision};
use bonsaidb_core::keyvalue::{Command, KeyOperation, KeyValue, SetCommand, Timestamp, Value};
use bonsaidb_core::schema::{Collection, Qualified, Schema, SchemaName, SerializedCollection};
use bonsaidb_core::Error;
use bonsaidb_local::config::{Builder, Compression, StorageConfiguration};
use bonsaidb_local::vault::LocalVaultKeyStorage;
use bonsaidb_local::{BackupLocation, Database, Storage};

use crate::engine::*;
use crate::fix::*;
use crate::hist::*;
use crate::kv::{gen_kop, gen_persistence, same_value, KModel};
use crate::{ensure, ensure_eq, fail};

// ---------- storages with and without a vault ----------

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Variant {
    pub key: bool,
    pub lz4: bool,
}
pub fn gen_variant(s: &mut Source) -> Variant {
    let v = s.draw(3);
    Variant { key: v & 1 == 1, lz4: v & 2 == 2 }
}
pub fn variant_config(path: &Path, v: Variant) -> StorageConfiguration {
    let keys = LocalVaultKeyStorage::new(path.with_extension("keys")).expect("HARNESS: key storage");
    let mut c = config(path).with_schema::<Vaulted>().expect("HARNESS: schema").vault_key_storage(keys);
    if v.key {
        c = c.default_encryption_key(KeyId::Master);
    }
    if v.lz4 {
        c = c.default_compression(Compression::Lz4);
    }
    c
}
fn variant_opener(v: &Arc<Mutex<Variant>>) -> Opener {
    let v = v.clone();
    Arc::new(move |p: &Path| Storage::open(variant_config(p, *v.lock().expect("HARNESS: lock"))).or_fail("opening storage"))
}

// ---------- C14: compaction ----------

#[derive(Clone, Copy, Debug)]
enum Target {
    Database,
    Col(Col),
    Kv,
}
fn gen_target(s: &mut Source, m: &Model) -> Target {
    match s.draw(3) {
        0 => Target::Database,
        1 => Target::Kv,
        _ => Target::Col(gen_col(s, m)),
    }
}
fn compact(db: &Database, t: Target) -> Result<(), Error> {
    match t {
        Target::Database => db.compact(),
        Target::Kv => db.compact_key_value_store(),
        Target::Col(Col::Item) => db.compact_collection::<Item>(),
        Target::Col(c) => db.compact_collection_by_name(c.name()),
    }
}
const COMPACT_MIX: Mix = Mix { single: 22, multi: 6, list: 2, get: 2, view: 8, delete_docs: 2, reopen: 2, compact: 0, log: 1, bulk: 2, steps: 25, unique: false, kv: 0 };

fn compaction(s: &mut Source, ctx: &mut Ctx) -> Res {
    let v = Arc::new(Mutex::new(gen_variant(s)));
    let secret = s.bool();
    ctx.log(format!("{:?}, secret {secret}", *v.lock().expect("HARNESS: lock")));
    let mut w = World::with(variant_opener(&v), secret)?;
    let n = 4 + s.draw(26);
    for _ in 0..n {
        match s.weighted(&[10, 3, 4]) {
            0 => step(s, &mut w, &COMPACT_MIX, ctx)?,
            1 => w.kv_step(s, ctx)?,
            _ => {
                let t = gen_target(s, &w.model);
                ctx.log(format!("compact {t:?}"));
                compact(w.db(), t).or_fail(format!("compacting {t:?}"))?;
                ctx.count("compactions");
                if w.model.cols.values().any(|c| !c.is_empty()) {
                    ctx.count("compactions_with_documents");
                }
                w.check_all("after compaction")?;
                if s.bool() {
                    w.check_views("after compaction")?;
                    w.kv_check("after compaction")?;
                }
            }
        }
    }
    finish(s, &mut w, ctx)?;
    if ctx.counters.contains_key("compactions_with_documents") {
        ctx.nontrivial();
    }
    Ok(())
}
fn finish(s: &mut Source, w: &mut World, ctx: &mut Ctx) -> Res {
    for round in 0..2 {
        let what = ["at the end", "after the last reopening"][round];
        w.check_all(what)?;
        w.check_views(what)?;
        w.check_log_at(s, ctx, round == 1)?;
        w.kv_check(what)?;
        if w.wide || round == 1 {
            break;
        }
        w.reopen()?;
    }
    Ok(())
}
/// Compactions in one or two other threads while the history runs.
fn concurrent_compaction(s: &mut Source, ctx: &mut Ctx) -> Res {
    let v = Arc::new(Mutex::new(gen_variant(s)));
    let secret = s.bool();
    ctx.log(format!("{:?}, secret {secret}", *v.lock().expect("HARNESS: lock")));
    let mut w = World::with(variant_opener(&v), secret)?;
    for _ in 0..1 + s.draw(2) {
        let threads = 1 + s.draw(1);
        let seed = s.fork_seed();
        let stop = AtomicBool::new(false);
        let mix = Mix { reopen: 0, steps: 0, ..COMPACT_MIX };
        let steps = 3 + s.draw(15);
        let db = w.db().clone();
        let model = Model { secret, ..Model::default() };
        ctx.log(format!("{threads} compacting threads, seed {seed}, {steps} steps"));
        let r: Res = std::thread::scope(|scope| {
            let handles: Vec<_> = (0..threads)
                .map(|i| {
                    let (db, stop, model) = (&db, &stop, &model);
                    scope.spawn(move || -> Res<u64> {
                        let mut s = Source::random(seed ^ i);
                        let mut n = 0;
                        while !stop.load(Ordering::Relaxed) {
                            let t = gen_target(&mut s, model);
                            compact(db, t).or_fail(format!("compacting {t:?} while the history runs"))?;
                            n += 1;
                            std::thread::sleep(Duration::from_micros(s.draw(2000)));
                        }
                        Ok(n)
                    })
                })
                .collect();
            let mut r = Ok(());
            for _ in 0..steps {
                r = if s.chance(1, 5) { w.kv_step(s, ctx) } else { step(s, &mut w, &mix, ctx) };
                if r.is_err() {
                    break;
                }
            }
            stop.store(true, Ordering::Relaxed);
            for h in handles {
                match h.join() {
                    Ok(Ok(n)) => ctx.add("concurrent_compactions", n),
                    Ok(Err(e)) => r = r.and(Err(e)),
                    Err(_) => r = r.and(Err(Failure::new("a compacting thread panicked"))),
                }
            }
            r
        });
        r?;
        drop(db);
        if s.bool() && !w.wide {
            w.reopen()?;
        }
        w.check_all("after concurrent compactions")?;
    }
    if ctx.counters.contains_key("concurrent_compactions") && ctx.counters.contains_key("transactions_applied") {
        ctx.nontrivial();
    }
    finish(s, &mut w, ctx)
}
pub fn c14() -> Property {
    Property {
        id: "C14",
        level: "exploration",
        rule: "a case is a history of document writes, view queries, key-value operations, reopenings and compactions of every target, on storages with and without encryption and compression, with the compactions between the steps or in other threads, compared with the model throughout; non-trivial = a collection with documents was compacted, or compactions ran during writes",
        assumptions: ASSUME,
        sections: vec![section("histories", 1_200, 100_000, compaction), section("concurrent", 400, 30_000, concurrent_compaction)],
    }
}

// ---------- C15: encryption and compression ----------

fn transparent(s: &mut Source, ctx: &mut Ctx) -> Res {
    let v = Arc::new(Mutex::new(gen_variant(s)));
    ctx.log(format!("{:?}", *v.lock().expect("HARNESS: lock")));
    let mut w = World::with(variant_opener(&v), true)?;
    let n = 4 + s.draw(26);
    let mix = Mix { single: 20, multi: 5, list: 2, get: 3, view: 8, delete_docs: 1, reopen: 0, compact: 1, log: 1, bulk: 1, steps: 25, unique: false, kv: 0 };
    for _ in 0..n {
        match s.weighted(&[10, 4, 2]) {
            0 => step(s, &mut w, &mix, ctx)?,
            1 => w.kv_step(s, ctx)?,
            _ if w.wide => {}
            _ => {
                // Another default is used for what is written from now on. A
                // storage without any has no vault to read the others with.
                let now = *v.lock().expect("HARNESS: lock");
                if s.bool() && now != Variant::default() {
                    let next = gen_variant(s);
                    if next != Variant::default() {
                        ctx.count("changes_of_defaults");
                        *v.lock().expect("HARNESS: lock") = next;
                    }
                }
                ctx.log(format!("reopen with {:?}", *v.lock().expect("HARNESS: lock")));
                w.reopen()?;
                ctx.count("reopens");
                w.check_all("after reopening")?;
                w.kv_check("after reopening")?;
            }
        }
    }
    if ctx.counters.contains_key("transactions_applied") {
        ctx.nontrivial();
    }
    finish(s, &mut w, ctx)
}
/// Bytes which look like what the vault writes.
fn lookalike(s: &mut Source) -> Vec<u8> {
    let mut b = match s.draw(3) {
        0 => vec![0; s.draw(60) as usize],
        1 => b"trv".to_vec(),
        2 => {
            // a payload's header
            let mut b = vec![];
            b.extend((s.draw(2) as u32).to_le_bytes());
            b.extend((s.draw(1) as u32).to_le_bytes());
            b.extend((s.draw(1) as u32).to_le_bytes());
            b.extend(s.draw(20).to_le_bytes());
            b
        }
        _ => vec![],
    };
    if s.bool() {
        b.extend([s.draw(3) as u8 | (s.draw(1) as u8) << 7]);
    }
    b.extend(s.bytes(60, 4));
    if s.chance(1, 6) {
        b.resize(100 + s.draw(60) as usize, 0);
    }
    b
}
fn lookalikes(s: &mut Source, ctx: &mut Ctx) -> Res {
    let v = Arc::new(Mutex::new(gen_variant(s)));
    ctx.log(format!("{:?}", *v.lock().expect("HARNESS: lock")));
    let mut w = World::with(variant_opener(&v), true)?;
    for _ in 0..1 + s.draw(6) {
        if s.bool() {
            let value = Value::Bytes(Bytes::from(lookalike(s)));
            let op = KeyOperation {
                namespace: None,
                key: s.word(2),
                command: Command::Set(SetCommand { value, expiration: None, keep_existing_expiration: false, check: None, return_previous_value: false }),
            };
            ctx.log(format!("{op:?}"));
            w.kv_op(&op)?;
        } else {
            let op = Op::Overwrite { col: Col::Raw, id: gen_id(s, Col::Raw), contents: lookalike(s) };
            ctx.log(op.show());
            w.tx(&[op], Via::Transaction, ctx)?;
        }
    }
    ctx.nontrivial();
    finish(s, &mut w, ctx)
}

fn all_files(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            all_files(&p, out);
        } else {
            out.push(p);
        }
    }
}
fn find(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
fn marker(r: &mut Rng) -> String {
    (0..16).map(|_| (b'A' + (r.next() % 26) as u8) as char).collect()
}
/// Nothing secret is readable in the files.
fn secrecy(s: &mut Source, ctx: &mut Ctx) -> Res {
    let v = Variant { key: s.bool(), lz4: s.bool() };
    let shared = Arc::new(Mutex::new(v));
    ctx.log(format!("{v:?}"));
    let mut w = World::with(variant_opener(&shared), true)?;
    let mut r = Rng::new(s.fork_seed());
    // (marker, where, must be secret)
    let mut marks: Vec<(String, String, bool)> = vec![];
    for _ in 0..1 + s.draw(8) {
        let (a, b) = (marker(&mut r), marker(&mut r));
        match s.draw(3) {
            0 => {
                let contents = <Secret as SerializedCollection>::serialize(&Secret { tag: a.clone(), body: format!("{}{}{b}{}", if s.bool() { "once:" } else { "" }, "x".repeat(s.draw(40) as usize), "y".repeat(s.draw(200) as usize)) })
                    .expect("HARNESS: serialize");
                let id = DocumentId::from_u64(s.draw(9));
                ctx.log(format!("secret document {id:?}"));
                w.tx(&[Op::Overwrite { col: Col::Secret, id, contents }], Via::Transaction, ctx)?;
                marks.push((a, "view key of the encrypted collection".into(), true));
                marks.push((b, "document (and view key) of the encrypted collection".into(), true));
                ctx.count("secret_documents");
            }
            1 => {
                let i = Item { n: s.draw(9) as u32, parent: None, tags: [a.clone()].into(), text: if s.bool() { format!("u{b}") } else { b.clone() } };
                let id = DocumentId::from_u64(s.draw(9));
                ctx.log(format!("item {id:?} {i:?}"));
                w.tx(&[Op::Overwrite { col: Col::Item, id, contents: item_bytes(&i) }], Via::Transaction, ctx)?;
                marks.push((a, "tag (view key) of a document".into(), v.key));
                marks.push((b, "text (view key) of a document".into(), v.key));
            }
            _ => {
                ctx.log("key-value");
                w.db().set_key(format!("k{a}"), &b).execute().or_fail("set_key")?;
                marks.push((a, "key of the key-value store".into(), v.key));
                marks.push((b, "value of the key-value store".into(), v.key));
            }
        }
        if s.chance(1, 3) {
            ctx.log("views and compaction");
            w.check_views("history")?;
            if s.bool() {
                compact(w.db(), gen_target(s, &w.model)).or_fail("compact")?;
            }
        }
        if s.chance(1, 5) {
            ctx.log("reopen");
            w.reopen()?;
        }
    }
    w.check_views("at the end")?;
    w.db = None;
    w.storage = None;
    let mut files = vec![];
    all_files(&w.path, &mut files);
    ensure!(!files.is_empty(), "HARNESS: no files");
    for f in files {
        let bytes = std::fs::read(&f).or_env("reading a file")?;
        for (m, what, secret) in &marks {
            if find(&bytes, m.as_bytes()) {
                ensure!(!secret, "{what} is readable in {:?} ({v:?})", f.file_name().unwrap_or_default());
                ctx.count("public_contents_found");
            }
        }
        ctx.count("files_searched");
    }
    if marks.iter().any(|m| m.2) {
        ctx.nontrivial();
    }
    w.reopen()?;
    w.check_all("after searching")
}

fn crc(data: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        (0..256_u32)
            .map(|i| (0..8).fold(i << 24, |c, _| if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 }))
            .collect()
    });
    !data.iter().fold(u32::MAX, |c, b| (c << 8) ^ t[((c >> 24) as u8 ^ b) as usize])
}
/// The checksummed chunks of a file which the vault wrote: (offset, length).
fn chunks(bytes: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i + 12 <= bytes.len() {
        let len = u32::from_be_bytes(bytes[i..i + 4].try_into().expect("HARNESS: 4")) as usize;
        if bytes[i + 8..].starts_with(b"trv") && len > 0 && i + 8 + len <= bytes.len() && crc(&bytes[i + 8..i + 8 + len]).to_be_bytes() == bytes[i + 4..i + 8] {
            out.push((i, len));
            i += 8 + len;
        } else {
            i += 1;
        }
    }
    out
}
/// Altered ciphertext (with a correct checksum) is never returned as data.
fn altered(s: &mut Source, ctx: &mut Ctx) -> Res {
    let v = Arc::new(Mutex::new(Variant { key: true, lz4: s.bool() }));
    let mut w = World::with(variant_opener(&v), true)?;
    for _ in 0..2 + s.draw(10) {
        if s.chance(1, 4) {
            w.kv_step(s, ctx)?;
        } else {
            let op = gen_op(s, &w.model, &w.history);
            ctx.log(op.show());
            w.tx(&[op], Via::Transaction, ctx)?;
        }
    }
    w.check_views("before closing")?;
    w.db = None;
    w.storage = None;
    let mut files = vec![];
    all_files(&w.path.join("main"), &mut files);
    files.sort();
    let mut all = vec![];
    for f in &files {
        let bytes = std::fs::read(f).or_env("reading a file")?;
        all.extend(chunks(&bytes).into_iter().map(|c| (f.clone(), c)));
    }
    ensure!(!all.is_empty(), "HARNESS: no encrypted chunks found");
    ctx.add("encrypted_chunks", all.len() as u64);
    // Prefer the last chunks of a file: the others may be out of use.
    let (f, (at, len)) = all[all.len() - 1 - s.below(all.len())].clone();
    let mut bytes = std::fs::read(&f).or_env("reading a file")?;
    let original = bytes.clone();
    let data = at + 8..at + 8 + len;
    let n = 1 + s.draw(2);
    // The first four bytes tell whether the rest is encrypted. The header of
    // the encrypted payload are the next 12 + 8 bytes.
    let marker = s.chance(1, 10);
    for _ in 0..n {
        let pos = match (marker, s.bool()) {
            (true, _) => s.below(4),
            (false, true) => 4 + s.below(len - 4),
            (false, false) => 4 + s.below(20.min(len - 4)),
        };
        bytes[data.start + pos] ^= 1 + s.draw(254) as u8;
    }
    let sum = crc(&bytes[data.clone()]);
    bytes[at + 4..at + 8].copy_from_slice(&sum.to_be_bytes());
    if bytes == original {
        return Ok(());
    }
    std::fs::write(&f, &bytes).or_env("writing a file")?;
    ctx.log(format!("altered {:?} at {at}, {len} bytes: {:02x?} -> {:02x?}", f.file_name(), &original[data.start..data.start + 24.min(len)], &bytes[data.start..data.start + 24.min(len)]));
    ctx.nontrivial();
    if marker {
        ctx.count("marker_alterations");
    }
    // Every read gives an error or what was written.
    let path = w.path.clone();
    let r = catch(|| read_altered(&w, &path, *v.lock().expect("HARNESS: lock"), ctx)).unwrap_or_else(|p| Err(Failure::sig("altered-ciphertext-panics", format!("reading altered ciphertext panics: {p}"))));
    match r {
        Err(f) if marker && !f.harness => Err(Failure::sig("altered-vault-marker-read-as-plaintext", f.msg)),
        r => r,
    }
}
fn read_altered(w: &World, path: &Path, v: Variant, ctx: &mut Ctx) -> Res {
    let Ok(storage) = Storage::open(variant_config(path, v)) else {
        ctx.count("refused_to_open");
        return Ok(());
    };
    let Ok(db) = storage.database::<Vaulted>("main") else {
        ctx.count("refused_to_open");
        return Ok(());
    };
    let mut errors = 0;
    for c in w.model.all_cols().iter().copied() {
        match db.list_from_collection(Range::from(..), Sort::Ascending, None, &c.name()) {
            Ok(got) => check_docs(&format!("documents of {c:?} after altering ciphertext"), &got, w.model.col(c).iter())?,
            Err(_) => errors += 1,
        }
        for (id, d) in w.model.col(c) {
            match db.get_from_collection(id.clone(), &c.name()) {
                Ok(got) => check_docs(&format!("get {c:?} {id:?} after altering ciphertext"), &got.into_iter().collect::<Vec<_>>(), [(id, d)].into_iter())?,
                Err(_) => errors += 1,
            }
        }
    }
    for (k, e) in &w.kv.keys {
        let op = KeyOperation { namespace: k.0.clone(), key: k.1.clone(), command: Command::Get { delete: false } };
        match db.execute_key_operation(op) {
            Ok(bonsaidb_core::keyvalue::Output::Value(Some(v))) if same_value(&v, &e.value) => {}
            Ok(other) => fail!("key {k:?} reads {} after altering ciphertext, it was {}", short(&other), short(&e.value)),
            Err(_) => errors += 1,
        }
    }
    if errors > 0 {
        ctx.count("alterations_reported");
    } else {
        ctx.count("alterations_outside_of_current_data");
    }
    Ok(())
}
/// A vault does not open what another one wrote.
fn foreign(s: &mut Source, ctx: &mut Ctx) -> Res {
    let v = Variant { key: true, lz4: s.bool() };
    let scratch = Scratch::new();
    let mut dirs = vec![];
    let mut m = vec![];
    for name in ["a.x", "b.x"] {
        let path = scratch.path(name);
        let storage = Storage::open(variant_config(&path, v)).or_fail("opening storage")?;
        let db = storage.create_database::<Vaulted>("main", false).or_fail("create_database")?;
        let doc = Secret { tag: s.word(3), body: s.string(30, 1) };
        let id = doc.clone().push_into(&db).or_fail("push")?.header.id;
        m.push((doc, id));
        dirs.push(path);
    }
    let one = |dir: &Path| -> Res<PathBuf> {
        let mut f = vec![];
        all_files(dir, &mut f);
        ensure!(f.len() == 1, "HARNESS: {} keys", f.len());
        Ok(f.remove(0))
    };
    let (ka, kb) = (one(&dirs[0].with_extension("keys"))?, one(&dirs[1].with_extension("keys"))?);
    let kind = s.draw(4);
    match kind {
        // The key of another storage, or none.
        0 => drop(std::fs::copy(&kb, &ka).or_env("copy")?),
        1 => std::fs::remove_file(&ka).or_env("remove")?,
        // The master keys of another storage.
        2 => drop(std::fs::copy(dirs[1].join("master-keys"), dirs[0].join("master-keys")).or_env("copy")?),
        // Both: the vault opens, the contents do not.
        3 => {
            std::fs::copy(&kb, &ka).or_env("copy")?;
            std::fs::copy(dirs[1].join("master-keys"), dirs[0].join("master-keys")).or_env("copy")?;
        }
        // Altered master keys.
        _ => {
            let f = if s.bool() { dirs[0].join("master-keys") } else { ka.clone() };
            let mut b = std::fs::read(&f).or_env("read")?;
            if s.bool() {
                let at = s.below(b.len());
                b[at] ^= 1 + s.draw(254) as u8;
            } else {
                b.truncate(s.below(b.len()));
            }
            ctx.log(format!("altered {:?}", f.file_name()));
            std::fs::write(&f, b).or_env("write")?;
        }
    }
    ctx.log(format!("kind {kind}"));
    ctx.nontrivial();
    let read = (|| -> Option<Secret> {
        let storage = Storage::open(variant_config(&dirs[0], v)).ok()?;
        let db = storage.database::<Vaulted>("main").ok()?;
        Secret::get(&m[0].1, &db).ok()?.map(|d| d.contents)
    })();
    match read {
        None => ctx.count("refused"),
        Some(d) if kind <= 3 => fail!("contents {d:?} were read with the keys of another storage (kind {kind})"),
        // e.g. the unused public key was altered
        Some(d) => ensure_eq!(d, m[0].0, "contents read with an altered key file"),
    }
    Ok(())
}
pub fn c15() -> Property {
    Property {
        id: "C15",
        level: "exploration",
        rule: "a case is a history compared with the model under a generated encryption and compression setup (changed when reopening), values which look like vault output, a search of all files for the markers written, a read of everything after altering an encrypted chunk (with its checksum corrected), or opening with keys of another storage; non-trivial = something was written (and altered)",
        assumptions: ASSUME,
        sections: vec![
            section("transparent", 700, 60_000, transparent),
            section("lookalikes", 600, 60_000, lookalikes),
            section("secrecy", 500, 40_000, secrecy),
            section("altered", 600, 60_000, altered),
            section("foreign", 150, 6_000, foreign),
        ],
    }
}


// ---------- C13: backup and restore ----------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Main,
    Vaulted,
    Odd,
    Bare,
}
const KINDS: [Kind; 4] = [Kind::Main, Kind::Vaulted, Kind::Odd, Kind::Bare];
impl Kind {
    fn schema(self) -> SchemaName {
        match self {
            Kind::Main => Main::schema_name(),
            Kind::Vaulted => Vaulted::schema_name(),
            Kind::Odd => Odd::schema_name(),
            Kind::Bare => Bare::schema_name(),
        }
    }
    fn create(self, storage: &Storage, name: &str, only_if_needed: bool) -> Result<Database, Error> {
        match self {
            Kind::Main => storage.create_database::<Main>(name, only_if_needed),
            Kind::Vaulted => storage.create_database::<Vaulted>(name, only_if_needed),
            Kind::Odd => storage.create_database::<Odd>(name, only_if_needed),
            Kind::Bare => storage.create_database::<Bare>(name, only_if_needed),
        }
    }
    fn open(self, storage: &Storage, name: &str) -> Result<Database, Error> {
        match self {
            Kind::Main => storage.database::<Main>(name),
            Kind::Vaulted => storage.database::<Vaulted>(name),
            Kind::Odd => storage.database::<Odd>(name),
            Kind::Bare => storage.database::<Bare>(name),
        }
    }
    fn world(self, storage: &Storage, db: Database) -> World {
        let mut w = World::around(storage.clone(), db, self == Kind::Vaulted);
        w.model.bare = self == Kind::Bare;
        w
    }
}
/// With every schema registered.
fn full_config(path: &Path, v: Variant) -> StorageConfiguration {
    variant_config(path, v).with_schema::<Odd>().expect("HARNESS: schema").with_schema::<Bare>().expect("HARNESS: schema")
}

type ObjectKey = (SchemaName, String, String, String);
#[derive(Default, Debug)]
struct InMemory(Mutex<BTreeMap<ObjectKey, Vec<u8>>>);
impl InMemory {
    fn keys(&self) -> Vec<ObjectKey> {
        self.0.lock().expect("HARNESS: lock").keys().cloned().collect()
    }
}
impl BackupLocation for InMemory {
    type Error = std::io::Error;
    fn store(&self, schema: &SchemaName, database: &str, container: &str, name: &str, object: &[u8]) -> Result<(), Self::Error> {
        let key = (schema.clone(), database.to_string(), container.to_string(), name.to_string());
        self.0.lock().expect("HARNESS: lock").insert(key, object.to_vec());
        Ok(())
    }
    fn list_schemas(&self) -> Result<Vec<SchemaName>, Self::Error> {
        let s: BTreeSet<SchemaName> = self.keys().into_iter().map(|k| k.0).collect();
        Ok(s.into_iter().collect())
    }
    fn list_databases(&self, schema: &SchemaName) -> Result<Vec<String>, Self::Error> {
        let s: BTreeSet<String> = self.keys().into_iter().filter(|k| k.0 == *schema).map(|k| k.1).collect();
        Ok(s.into_iter().collect())
    }
    fn list_stored(&self, schema: &SchemaName, database: &str, container: &str) -> Result<Vec<String>, Self::Error> {
        Ok(self.keys().into_iter().filter(|k| k.0 == *schema && k.1 == database && k.2 == container).map(|k| k.3).collect())
    }
    fn load(&self, schema: &SchemaName, database: &str, container: &str, name: &str) -> Result<Vec<u8>, Self::Error> {
        let key = (schema.clone(), database.to_string(), container.to_string(), name.to_string());
        self.0.lock().expect("HARNESS: lock").get(&key).cloned().ok_or_else(|| std::io::ErrorKind::NotFound.into())
    }
}

#[derive(serde::Deserialize, Debug)]
struct StoredEntry {
    value: Value,
    expiration: Option<Timestamp>,
    #[allow(dead_code)]
    last_updated: Timestamp,
}

/// Names which are awkward as file names. What escapes stays in scratch.
fn awkward(s: &mut Source, scratch: &Scratch) -> String {
    match s.draw(20) {
        0 => "a/b".into(),
        1 => "..".into(),
        2 => ".".into(),
        3 => "../x".into(),
        4 => "../../x/".into(),
        5 => "/".into(),
        6 => "%".into(),
        7 => "%2F".into(),
        8 => "%2f%".into(),
        9 => "a\\b".into(),
        10 => "a\nb".into(),
        11 => " ".into(),
        12 => "ключ".into(),
        13 => "x".repeat(60 + s.draw(60) as usize),
        14 => "x".repeat(250),
        15 => "_kv".into(),
        16 => "._key.".into(),
        17 => scratch.path("absolute").to_string_lossy().into_owned(),
        18 => "*?\"<>|:".into(),
        19 => format!("{}/{}", s.word(2), s.word(2)),
        _ => s.string(5, 2).replace('\0', "0"),
    }
}
const BACKUP_MIX: Mix = Mix { single: 12, multi: 5, list: 0, get: 0, view: 2, delete_docs: 1, reopen: 0, compact: 1, log: 0, bulk: 1, steps: 0, unique: false, kv: 0 };
/// A key-value operation with awkward keys and expirations far away.
fn odd_kv(s: &mut Source, w: &mut World, scratch: &Scratch, ctx: &mut Ctx) -> Res {
    let mut op = gen_kop(s, &w.kv, false);
    if s.chance(1, 3) {
        op.key = awkward(s, scratch);
        if s.chance(1, 6) {
            op.key.push('\0');
        }
    }
    if s.chance(1, 5) {
        // An empty namespace is the same as none (known finding of C10).
        op.namespace = Some(awkward(s, scratch)).filter(|n| !n.is_empty());
    }
    if let Command::Set(SetCommand { expiration, keep_existing_expiration, .. }) = &mut op.command {
        *expiration = s.chance(1, 3).then(|| Timestamp::now() + Duration::from_secs(86_400 * (1 + s.draw(1000))));
        if op.key.contains('\0') {
            *keep_existing_expiration = false;
        }
    }
    ctx.log(format!("{op:?}"));
    w.kv_op(&op)
}
const DB_NAMES: [&str; 10] = ["main", "a", "b", "A", "_kv", "a.", "a-", "a.b-c", "_x", "1"];

fn admin_docs(storage: &Storage) -> Res<BTreeMap<(String, DocumentId), Vec<u8>>> {
    let mut out = BTreeMap::new();
    let admin = storage.admin();
    for c in [User::collection_name(), Role::collection_name(), PermissionGroup::collection_name(), AuthenticationToken::collection_name()] {
        for d in admin.list_from_collection(Range::from(..), Sort::Ascending, None, &c).or_fail("listing the admin database")? {
            out.insert((c.to_string(), d.header.id), d.contents.to_vec());
        }
    }
    Ok(out)
}
fn databases(storage: &Storage) -> Res<BTreeMap<String, SchemaName>> {
    Ok(storage.list_databases().or_fail("list_databases")?.into_iter().map(|d| (d.name, d.schema)).collect())
}
fn backup(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let v = gen_variant(s);
    // Nothing but the location of the backup needs to be on disk.
    let open_at = |s: &mut Source, v: Variant, name: &str, ctx: &mut Ctx| -> Res<Storage> {
        let c = full_config(&scratch.path(name), v).key_value_persistence(gen_persistence(s));
        let memory = s.chance(1, 5);
        if memory {
            ctx.count("storages_in_memory");
        }
        ctx.log(format!("{name} {v:?}{}", if memory { " in memory" } else { "" }));
        Storage::open(if memory { c.memory_only() } else { c }).or_fail("opening storage")
    };
    let source = open_at(s, v, "source.db", ctx)?;
    let mut worlds: Vec<(String, Kind, World)> = vec![];
    for _ in 0..1 + s.draw(3) {
        let name = *s.pick(&DB_NAMES);
        if worlds.iter().any(|w| w.0 == name) {
            continue;
        }
        let kind = KINDS[s.weighted(&[4, 3, 2, 1])];
        ctx.log(format!("database {name} {kind:?}"));
        let db = kind.create(&source, name, false).or_fail("create_database")?;
        let mut w = kind.world(&source, db);
        for _ in 0..s.draw(12) {
            if kind == Kind::Bare || s.chance(2, 5) {
                odd_kv(s, &mut w, &scratch, ctx)?;
            } else if s.chance(1, 4) {
                let name = awkward(s, &scratch);
                let (col, id) = if s.bool() { (Col::Raw, DocumentId::try_from(name.as_bytes())) } else { (Col::Named, DocumentId::try_from(name.as_bytes())) };
                let op = Op::Overwrite { col, id: id.expect("HARNESS: id"), contents: gen_contents(s, col) };
                ctx.log(op.show());
                w.tx(&[op], Via::Transaction, ctx)?;
            } else {
                step(s, &mut w, &BACKUP_MIX, ctx)?;
            }
        }
        worlds.push((name.to_string(), kind, w));
    }
    for _ in 0..s.draw(3) {
        let name = awkward(s, &scratch);
        ctx.log(format!("admin {name:?}"));
        // taken names are refused
        let _ = match s.draw(2) {
            0 => source.create_user(&name).map(|_| ()),
            1 => Role::named(name).push_into(&source.admin()).map(|_| ()).map_err(|e| e.error),
            _ => PermissionGroup::named(name).push_into(&source.admin()).map(|_| ()).map_err(|e| e.error),
        };
    }
    let before = databases(&source)?;
    let admin = admin_docs(&source)?;

    let memory = InMemory::default();
    source.backup(&memory).or_fail("backup")?;
    check_backup(&memory, &worlds)?;
    let v2 = if s.bool() { v } else { gen_variant(s) };
    let target = open_at(s, v2, "target.db", ctx)?;
    let on_disk = s.bool();
    ctx.log(format!("restore into {v2:?}, {}", if on_disk { "through files" } else { "in memory" }));
    if on_disk {
        let location = scratch.path("backup");
        let longest = memory.keys().iter().map(|k| k.3.len()).max().unwrap_or(0);
        let saved = if s.bool() {
            let rt = crate::denied::rt();
            let a = source.to_async_with_runtime(rt.handle().clone());
            rt.block_on(a.backup(location.clone()))
        } else {
            source.backup(&location)
        };
        match saved {
            Ok(()) => {}
            // Names too long for the file system may be refused. Escaping
            // triples the length of a character.
            Err(e) if longest * 3 >= 255 => {
                ctx.count("too_long_for_the_file_system");
                ctx.log(format!("refused: {e}"));
                return Ok(());
            }
            Err(e) => fail!("backup into a directory: {e:?}"),
        }
        let mut files = vec![];
        all_files(&scratch.root(), &mut files);
        for f in files {
            let ok = ["backup", "source.db", "source.keys", "target.db", "target.keys"].iter().any(|d| f.starts_with(scratch.path(d)));
            ensure!(ok, "the backup wrote {f:?}, which is not in its directory");
        }
        if s.bool() {
            let rt = crate::denied::rt();
            let a = target.to_async_with_runtime(rt.handle().clone());
            rt.block_on(a.restore(location)).or_fail("asynchronous restore from a directory")?;
        } else {
            target.restore(&location).or_fail("restore from a directory")?;
        }
        ctx.count("restored_from_files");
    } else {
        target.restore(&memory).or_fail("restore")?;
        ctx.count("restored_from_memory");
    }
    ensure_eq!(databases(&target)?, before, "databases of the restored storage");
    ensure_eq!(admin_docs(&target)?, admin, "users, roles, groups and tokens of the restored storage");
    let again = InMemory::default();
    target.backup(&again).or_fail("backup of the restored storage")?;
    check_backup(&again, &worlds)?;
    if worlds.iter().any(|w| w.2.model.cols.values().any(|c| !c.is_empty()) && !w.2.kv.keys.is_empty()) {
        ctx.nontrivial();
    }
    for (name, kind, mut w) in worlds {
        // The source is unchanged by its backup.
        w.check_all("the source after its backup")?;
        w.kv_check("the source after its backup")?;
        let db = kind.open(&target, &name).or_fail("opening a restored database")?;
        let mut r = kind.world(&target, db);
        for (c, docs) in &w.model.cols {
            for (id, d) in docs {
                r.model.col_mut(*c).insert(id.clone(), Doc { rev: Revision::new(&d.contents), contents: d.contents.clone() });
            }
        }
        r.kv = KModel { keys: w.kv.keys.clone() };
        r.check_all("restored")?;
        r.check_views("restored")?;
        r.kv_check("restored")?;
        // It is a database like any other.
        for _ in 0..s.draw(4) {
            if kind == Kind::Bare || s.chance(1, 3) {
                odd_kv(s, &mut r, &scratch, ctx)?;
            } else {
                step(s, &mut r, &BACKUP_MIX, ctx)?;
            }
        }
        r.check_all("restored and changed")?;
        r.check_views("restored and changed")?;
    }
    Ok(())
}
/// The objects of a backup are the contents of the databases.
fn check_backup(memory: &InMemory, worlds: &[(String, Kind, World)]) -> Res {
    let objects = memory.0.lock().expect("HARNESS: lock");
    for (name, kind, w) in worlds {
        let all = |container: &str| -> BTreeMap<String, Vec<u8>> {
            objects.iter().filter(|(k, _)| k.0 == kind.schema() && k.1 == *name && k.2 == container).map(|(k, o)| (k.3.clone(), o.clone())).collect()
        };
        for c in w.model.all_cols() {
            let want: BTreeMap<String, Vec<u8>> = w.model.col(*c).iter().map(|(id, d)| (id.to_string(), d.contents.clone())).collect();
            let got = all(&c.name().encoded());
            ensure!(got == want, "backup of {c:?} of {name:?}: objects {}, expected {}", short(&got), short(&want));
        }
        let mut got = all("_kv");
        for ((ns, key), e) in &w.kv.keys {
            let object = format!("{}._key._{key}", ns.as_deref().unwrap_or(""));
            let Some(entry) = got.remove(&object) else { fail!("key {key:?} of namespace {ns:?} of {name:?} is not in the backup") };
            let entry: StoredEntry = pot::from_slice(&entry).or_fail("decoding an entry of the backup")?;
            ensure!(same_value(&entry.value, &e.value) && entry.expiration == e.exp, "key {key:?} of namespace {ns:?} of {name:?} is in the backup as {entry:?}, expected {e:?}");
        }
        ensure!(got.is_empty(), "keys {:?} of {name:?} in the backup are not in the database", got.keys());
    }
    Ok(())
}
fn known_namespace(_s: &mut Source, ctx: &mut Ctx) -> Res {
    ctx.nontrivial();
    let scratch = Scratch::new();
    let source = open(&scratch.path("source"))?;
    let db = source.create_database::<Main>("main", false).or_fail("create_database")?;
    db.with_key_namespace("a._key._b").set_key("k", &1_u32).execute().or_fail("set_key")?;
    let memory = InMemory::default();
    source.backup(&memory).or_fail("backup")?;
    let target = open(&scratch.path("target"))?;
    target.restore(&memory).or_fail("restore")?;
    let db = target.database::<Main>("main").or_fail("database")?;
    let got: Option<u32> = db.with_key_namespace("a._key._b").get_key("k").into().or_fail("get_key")?;
    if got != Some(1) {
        return Err(Failure::sig("kv-namespace-with-key-separator", format!("key \"k\" of namespace \"a._key._b\" reads {got:?} after a restore")));
    }
    Ok(())
}
pub fn c13() -> Property {
    Property {
        id: "C13",
        level: "exploration",
        rule: "a case is a storage of one to four databases (four schemas, awkward database names, document ids, keys and namespaces, expirations, users, roles and groups, encryption, compression and persistence settings) which is backed up in memory or in a directory and restored into a new storage; the objects of the backup, the restored databases and a backup of them equal the model, the source is unchanged and the restored databases can be used further; non-trivial = a database had documents and keys",
        assumptions: ASSUME,
        sections: vec![section("backup", 1_200, 80_000, backup), section("known", 1, 1, known_namespace)],
    }
}

// ---------- C16: several databases ----------

struct Many {
    path: PathBuf,
    storage: Option<Storage>,
    opener: Opener,
    dbs: BTreeMap<String, (Kind, World)>,
    /// Names of databases which existed before.
    gone: BTreeSet<String>,
    /// Databases not to be opened again; see `World::wide`.
    wide: bool,
    scratch: Scratch,
}
const NAMES: [&str; 9] = ["main", "a", "b", "A", "a.", "a-", "ab", "_x", "1"];
const INVALID: [&str; 12] = ["", ".", "..", "../victim", "../../outer", "a/b", "a/../b", "-a", "a b", "é", "a\0", "a_b"];
/// Used by the storage itself.
const RESERVED: [&str; 4] = ["storage-id", "server-id", "master-keys", "vault-keys"];
impl Many {
    fn storage(&self) -> &Storage {
        self.storage.as_ref().expect("HARNESS: open")
    }
    fn check_list(&self) -> Res {
        let mut want: BTreeMap<String, SchemaName> = self.dbs.iter().map(|(n, (k, _))| (n.clone(), k.schema())).collect();
        want.insert("_admin".into(), Admin::schema_name());
        ensure_eq!(databases(self.storage())?, want, "list_databases");
        let schemas: BTreeSet<SchemaName> = self.storage().list_available_schemas().or_fail("list_available_schemas")?.into_iter().map(|s| s.name).collect();
        ensure_eq!(schemas, want.into_values().collect::<BTreeSet<_>>(), "list_available_schemas");
        Ok(())
    }
    fn check(&mut self, what: &str, views: bool) -> Res {
        self.check_list()?;
        for (name, (_, w)) in &mut self.dbs {
            let what = format!("{what}: database {name}");
            w.check_all(&what)?;
            w.kv_check(&what)?;
            if views {
                w.check_views(&what)?;
            }
        }
        Ok(())
    }
    fn forget(&mut self, name: &str) -> Option<(Kind, World)> {
        let r = self.dbs.remove(name);
        if r.is_some() {
            self.gone.insert(name.to_string());
        }
        r
    }
    fn reopen(&mut self) -> Res {
        for (_, w) in self.dbs.values_mut() {
            w.db = None;
            w.storage = None;
        }
        self.storage = None;
        let storage = (self.opener)(&self.path)?;
        for (name, (kind, w)) in &mut self.dbs {
            w.db = Some(kind.open(&storage, name).or_fail(format!("opening {name} again"))?);
            w.storage = Some(storage.clone());
        }
        self.storage = Some(storage);
        Ok(())
    }
}
const DB_MIX: Mix = Mix { single: 20, multi: 5, list: 1, get: 1, view: 0, delete_docs: 2, reopen: 0, compact: 1, log: 2, bulk: 1, steps: 0, unique: false, kv: 8 };
/// A sibling of the storage, which nothing may touch.
fn victims(scratch: &Scratch) -> Vec<PathBuf> {
    ["victim/file", "../outer/file", "absolute/file"].iter().map(|v| scratch.path(v)).collect()
}
fn databases_history(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let path = scratch.path("storage");
    for v in victims(&scratch) {
        std::fs::create_dir_all(v.parent().expect("HARNESS: parent")).or_env("mkdir")?;
        std::fs::write(v, b"v").or_env("write")?;
    }
    let v = gen_variant(s);
    let persistence = gen_persistence(s);
    ctx.log(format!("{v:?} {persistence:?}"));
    let own_keys = s.bool();
    let opener: Opener = Arc::new(move |p: &Path| {
        let mut c = full_config(p, v).key_value_persistence(persistence.clone());
        if own_keys {
            c.vault_key_storage = None;
        }
        Storage::open(c).or_fail("opening storage")
    });
    let storage = opener(&path)?;
    let mut m = Many { path, storage: Some(storage), opener, dbs: BTreeMap::new(), gone: BTreeSet::new(), wide: false, scratch };
    for _ in 0..6 + s.draw(24) {
        many_step(s, &mut m, ctx)?;
    }
    m.check("at the end", true)?;
    if !m.wide {
        m.reopen()?;
        m.check("after the last reopening", true)?;
    }
    for v in victims(&m.scratch) {
        ensure!(std::fs::read(&v).ok().as_deref() == Some(b"v"), "{v:?} outside of the storage was changed");
    }
    if ctx.counters.contains_key("recreated_databases") && ctx.counters.contains_key("steps_with_other_databases") {
        ctx.nontrivial();
    }
    Ok(())
}
fn many_step(s: &mut Source, m: &mut Many, ctx: &mut Ctx) -> Res {
    let existing: Vec<String> = m.dbs.keys().cloned().collect();
    match s.weighted(&[12, 5, 5, 2, 2, 2, 1]) {
        0 | 1 if existing.is_empty() => create(s, m, ctx)?,
        0 => {
            let name = s.pick(&existing).clone();
            let (kind, w) = m.dbs.get_mut(&name).expect("HARNESS: name");
            ctx.log(format!("in {name}:"));
            for _ in 0..1 + s.draw(3) {
                if *kind == Kind::Bare {
                    w.kv_step(s, ctx)?;
                } else if s.chance(1, 6) {
                    let v = *s.pick(w.model.all_views());
                    ctx.log(format!("query {v:?}"));
                    w.query(v, None, Sort::Ascending, None, AccessPolicy::UpdateBefore, "history")?;
                } else {
                    step(s, w, &DB_MIX, ctx)?;
                }
            }
            m.wide |= w.wide;
            if m.dbs.len() > 1 {
                ctx.count("steps_with_other_databases");
                let other = s.pick(&existing).clone();
                let (_, w) = m.dbs.get_mut(&other).expect("HARNESS: name");
                w.check_all(&format!("database {other} after a step in {name}"))?;
                w.kv_check(&format!("database {other} after a step in {name}"))?;
            }
        }
        1 => create(s, m, ctx)?,
        2 => delete(s, m, ctx)?,
        3 => {
            let name = *s.pick(&NAMES);
            let kind = *s.pick(&KINDS);
            ctx.log(format!("open {name} as {kind:?}"));
            let got = kind.open(m.storage(), name);
            match (m.dbs.get(name), got) {
                (None, Err(Error::DatabaseNotFound(_))) => {}
                (Some((k, _)), Err(Error::SchemaMismatch { .. })) if *k != kind => {}
                (Some((k, _)), Ok(_)) if *k == kind => {}
                (e, got) => fail!("opening {name} as {kind:?}: {:?}, it is {:?}", got.map(|_| ()), e.map(|e| e.0)),
            }
        }
        4 if m.wide => {}
        4 => {
            ctx.log("reopen");
            m.reopen()?;
            ctx.count("reopens");
            m.check("after reopening", false)?;
        }
        5 => {
            ctx.log("check");
            let views = s.bool();
            m.check("history", views)?;
        }
        _ => {
            // The recorded transactions of one database only.
            if let Some(name) = (!existing.is_empty()).then(|| s.pick(&existing).clone()) {
                let (kind, w) = m.dbs.get_mut(&name).expect("HARNESS: name");
                if *kind != Kind::Bare {
                    ctx.log(format!("log of {name}"));
                    w.check_log(s, ctx)?;
                }
            }
        }
    }
    Ok(())
}
fn create(s: &mut Source, m: &mut Many, ctx: &mut Ctx) -> Res {
    let kind = KINDS[s.weighted(&[5, 2, 1, 1])];
    let only_if_needed = s.bool();
    let gone: Vec<&str> = NAMES.into_iter().filter(|n| m.gone.contains(*n)).collect();
    let (name, valid) = match s.weighted(&[12, 2, 1, 1]) {
        0 if !gone.is_empty() && s.bool() => (*s.pick(&gone), true),
        0 => (*s.pick(&NAMES), true),
        1 => (*s.pick(&INVALID), false),
        2 => (*s.pick(&RESERVED), false),
        _ => ("_admin", true),
    };
    ctx.log(format!("create {name:?} {kind:?} only_if_needed {only_if_needed}"));
    if s.chance(1, 12) {
        let unknown = SchemaName::new("vh", "unknown");
        match m.storage().create_database_with_schema(name, unknown, only_if_needed) {
            Err(Error::SchemaNotRegistered(_)) => {}
            Err(Error::InvalidDatabaseName(_)) if !valid => {}
            other => fail!("creating {name:?} with an unknown schema: {other:?}"),
        }
        return m.check_list();
    }
    let got = kind.create(m.storage(), name, only_if_needed);
    let taken = if name == "_admin" { None } else { m.dbs.get(name).map(|d| d.0) };
    match got {
        Err(Error::InvalidDatabaseName(_)) if !valid => ctx.count("invalid_names_refused"),
        Err(Error::DatabaseNameAlreadyTaken(_)) if (taken.is_some() || name == "_admin") && !only_if_needed => ctx.count("taken_names_refused"),
        Err(Error::SchemaMismatch { .. }) if only_if_needed && (name == "_admin" || taken.is_some_and(|k| k != kind)) => ctx.count("other_schemas_refused"),
        Ok(_) if only_if_needed && taken == Some(kind) => ctx.count("tolerated"),
        Ok(db) if valid && taken.is_none() && name != "_admin" => {
            let mut w = kind.world(m.storage(), db);
            w.opener = m.opener.clone();
            let again = m.gone.contains(name);
            let what = if again { "a recreated database" } else { "a new database" };
            w.check_all(what)?;
            w.kv_check(what)?;
            if kind != Kind::Bare {
                w.check_views(what)?;
                let log = w.db().list_executed_transactions(None, None).or_fail("list_executed_transactions")?;
                ensure!(log.is_empty(), "{what} has executed transactions {}", short(&log));
            }
            // The views checked are now scanned, by tasks which are done.
            if again {
                ctx.count("recreated_databases");
            }
            m.dbs.insert(name.to_string(), (kind, w));
        }
        other => fail!("creating {name:?} as {kind:?}, only_if_needed {only_if_needed}: {:?}; it exists as {taken:?}", other.map(|_| ())),
    }
    m.check_list()
}
fn delete(s: &mut Source, m: &mut Many, ctx: &mut Ctx) -> Res {
    let absolute = m.scratch.path("absolute").to_string_lossy().into_owned();
    let name: String = match s.weighted(&[10, 3, 2, 1, 1]) {
        0 => match m.dbs.keys().cloned().collect::<Vec<_>>() {
            names if !names.is_empty() && s.chance(3, 4) => s.pick(&names).clone(),
            _ => NAMES[s.below(NAMES.len())].into(),
        },
        1 => INVALID[s.below(INVALID.len())].into(),
        2 => RESERVED[s.below(RESERVED.len())].into(),
        3 => absolute,
        _ => "_admin".into(),
    };
    let held = s.chance(1, 3);
    ctx.log(format!("delete {:?}{}", name.replace(m.scratch.0.to_str().unwrap_or("-"), "…"), if held { ", with a handle held" } else { "" }));
    let old = m.forget(&name);
    let existed = old.is_some();
    let handle = if held { old.and_then(|(kind, mut w)| w.db.take().map(|db| (kind, db))) } else { None };
    if let (Some((kind, db)), true) = (&handle, s.bool()) {
        if *kind == Kind::Main {
            // Jobs which may still be running when the database is deleted.
            for v in VIEWS {
                let _ = db.query_by_name(&v.name(), None, Sort::Ascending, Some(1), AccessPolicy::UpdateAfter);
            }
            ctx.count("deleted_with_jobs");
        }
    }
    match m.storage().delete_database(&name) {
        Ok(()) => ensure!(existed, "deleting {name:?}, which does not exist, succeeded"),
        Err(Error::DatabaseNotFound(_)) => ensure!(!existed, "deleting {name:?}: not found"),
        Err(Error::InvalidDatabaseName(_)) => ensure!(!existed, "deleting {name:?}: invalid"),
        Err(e) => fail!("deleting {name:?}: {e:?}"),
    }
    if existed {
        ctx.count("deleted_databases");
        ensure!(!m.path.join(&name).exists(), "the directory of {name:?} is left");
    } else {
        ctx.count("refused_deletions");
        for v in victims(&m.scratch) {
            ensure!(std::fs::read(&v).ok().as_deref() == Some(b"v"), "deleting {name:?} changed {v:?}, which is outside of the storage");
        }
    }
    if s.bool() && existed && NAMES.contains(&name.as_str()) {
        // while the handle of the deleted database is still held
        let kind = KINDS[s.weighted(&[3, 1, 1, 1])];
        ctx.log(format!("create {name} {kind:?} again"));
        let db = kind.create(m.storage(), &name, false).or_fail("create_database")?;
        let mut w = kind.world(m.storage(), db);
        w.opener = m.opener.clone();
        w.check_all("a recreated database")?;
        w.kv_check("a recreated database")?;
        if kind != Kind::Bare {
            w.check_views("a recreated database")?;
        }
        ctx.count("recreated_databases");
        m.dbs.insert(name.clone(), (kind, w));
    }
    if let Some((kind, db)) = &handle {
        stale(s, *kind, db, ctx)?;
    }
    drop(handle);
    m.check(&format!("after deleting {name:?}"), s.bool())
}
/// Writes of a handle of a deleted database are refused.
fn stale(s: &mut Source, kind: Kind, db: &Database, ctx: &mut Ctx) -> Res {
    for _ in 0..1 + s.draw(4) {
        let n = s.draw(7);
        ctx.log(format!("stale operation {n}"));
        ctx.count("stale_operations");
        match n {
            0 => ensure!(db.set_key("k", &1_u32).execute().is_err(), "a handle of a deleted database sets keys"),
            1 => ensure!(db.with_key_namespace("n").delete_key("k").is_err(), "a handle of a deleted database deletes keys"),
            _ if kind != Kind::Main => {}
            2 => {
                let mut t = bonsaidb_core::transaction::Transaction::new();
                t.push(bonsaidb_core::transaction::Operation::insert(Col::Raw.name(), None, b"stale".to_vec()));
                ensure!(db.apply_transaction(t).is_err(), "a handle of a deleted database inserts documents");
            }
            3 => {
                let _ = db.list_from_collection((..).into(), Sort::Ascending, None, &Col::Raw.name());
                let _ = db.get_from_collection(DocumentId::from_u64(1), &Col::Raw.name());
                let _ = db.count_from_collection((..).into(), &Col::Raw.name());
            }
            4 => {
                let v = *s.pick(&VIEWS);
                let policy = *s.pick(&[AccessPolicy::UpdateBefore, AccessPolicy::UpdateAfter, AccessPolicy::NoUpdate]);
                let _ = db.query_by_name(&v.name(), None, Sort::Ascending, None, policy);
                let _ = db.reduce_by_name(&v.name(), None, policy);
            }
            5 => {
                let _ = db.compact();
                let _ = db.list_executed_transactions(None, None);
                let _ = db.last_transaction_id();
            }
            6 => {
                let v = *s.pick(&VIEWS);
                let _ = db.delete_docs_by_name(&v.name(), None, AccessPolicy::UpdateBefore);
            }
            _ => {
                let _ = db.get_key("k").query();
            }
        }
    }
    Ok(())
}
pub fn c16() -> Property {
    Property {
        id: "C16",
        level: "exploration",
        rule: "a case is a history of creating (valid, invalid, reserved and taken names, unknown schemas), opening, deleting (also names which would be paths) and recreating databases of four schemas in one storage, with document and key-value histories in each, reopenings and handles held over the deletion; all databases equal their models throughout, recreated ones start empty, and files beside the storage stay; non-trivial = a database was recreated and steps were made beside other databases",
        assumptions: ASSUME,
        sections: vec![section("databases", 1_000, 80_000, databases_history)],
    }
}
