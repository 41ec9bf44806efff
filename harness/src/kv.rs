//! The key-value store against a map with expirations (C10, C11).
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::StorageConnection;
use bonsaidb_core::keyvalue::{Command, KeyCheck, KeyOperation, KeyStatus, KeyValue, Numeric, Output, SetCommand, Timestamp, Value};
use bonsaidb_core::Error;
use bonsaidb_local::config::{Builder, KeyValuePersistence, PersistenceThreshold};
use bonsaidb_local::{Database, Storage};

use crate::engine::*;
use crate::fix::{config, Main};
use crate::{ensure, ensure_eq, fail};

pub type KvKey = (Option<String>, String);
#[derive(Clone, Debug, PartialEq)]
pub struct KEntry {
    pub value: Value,
    pub exp: Option<Timestamp>,
    /// Read back from disk: the expiration is applied by a background task.
    pub loose: bool,
}
#[derive(Clone, Debug, Default)]
pub struct KModel {
    pub keys: BTreeMap<KvKey, KEntry>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum KResult {
    Status(KeyStatus),
    Value(Option<Value>),
    NotANumber,
    NotNumeric,
}

pub fn same_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Numeric(Numeric::Float(a)), Value::Numeric(Numeric::Float(b))) => a.to_bits() == b.to_bits() || a == b,
        _ => a == b,
    }
}
fn same(a: &KResult, b: &KResult) -> bool {
    match (a, b) {
        (KResult::Value(Some(a)), KResult::Value(Some(b))) => same_value(a, b),
        _ => a == b,
    }
}

// Conversions and arithmetic from their documentation, over wide integers.
fn to_i64(n: &Numeric, saturating: bool) -> i64 {
    match n {
        Numeric::Integer(v) => *v,
        Numeric::UnsignedInteger(v) => {
            if saturating {
                i128::from(*v).min(i128::from(i64::MAX)) as i64
            } else {
                wrap_i64(i128::from(*v))
            }
        }
        Numeric::Float(f) => *f as i64,
    }
}
fn to_u64(n: &Numeric, saturating: bool) -> u64 {
    match n {
        Numeric::UnsignedInteger(v) => *v,
        Numeric::Integer(v) => {
            if saturating {
                i128::from(*v).max(0) as u64
            } else {
                wrap_u64(i128::from(*v))
            }
        }
        Numeric::Float(f) => *f as u64,
    }
}
fn wrap_u64(v: i128) -> u64 {
    v.rem_euclid(1_i128 << 64) as u64
}
fn wrap_i64(v: i128) -> i64 {
    let m = v.rem_euclid(1_i128 << 64);
    (if m >= 1_i128 << 63 { m - (1_i128 << 64) } else { m }) as i64
}
fn arithmetic(existing: &Numeric, amount: &Numeric, up: bool, saturating: bool) -> Numeric {
    let sign: i128 = if up { 1 } else { -1 };
    match amount {
        Numeric::Integer(a) => {
            let r = i128::from(to_i64(existing, saturating)) + sign * i128::from(*a);
            Numeric::Integer(if saturating { r.clamp(i128::from(i64::MIN), i128::from(i64::MAX)) as i64 } else { wrap_i64(r) })
        }
        Numeric::UnsignedInteger(a) => {
            let r = i128::from(to_u64(existing, saturating)) + sign * i128::from(*a);
            Numeric::UnsignedInteger(if saturating { r.clamp(0, i128::from(u64::MAX)) as u64 } else { wrap_u64(r) })
        }
        Numeric::Float(a) => {
            let e = match existing {
                Numeric::Integer(v) => *v as f64,
                Numeric::UnsignedInteger(v) => *v as f64,
                Numeric::Float(v) => *v,
            };
            Numeric::Float(if up { e + a } else { e - a })
        }
    }
}

impl KModel {
    /// Applies an operation; `None` in place of the entry means the key is
    /// vacant or expired.
    pub fn apply(&mut self, op: &KeyOperation) -> KResult {
        let k: KvKey = (op.namespace.clone(), op.key.clone());
        let existing = self.keys.get(&k).cloned();
        match &op.command {
            Command::Set(set) => {
                if matches!(&set.value, Value::Numeric(Numeric::Float(f)) if f.is_nan()) {
                    return KResult::NotANumber;
                }
                let proceed = match set.check {
                    None => true,
                    Some(KeyCheck::OnlyIfPresent) => existing.is_some(),
                    Some(KeyCheck::OnlyIfVacant) => existing.is_none(),
                };
                if !proceed {
                    return KResult::Status(KeyStatus::NotChanged);
                }
                let (exp, loose) = match &existing {
                    Some(e) if set.keep_existing_expiration => (e.exp, e.loose),
                    _ => (set.expiration, false),
                };
                self.keys.insert(k, KEntry { value: set.value.clone(), exp, loose });
                if set.return_previous_value {
                    KResult::Value(existing.map(|e| e.value))
                } else if existing.is_some() {
                    KResult::Status(KeyStatus::Updated)
                } else {
                    KResult::Status(KeyStatus::Inserted)
                }
            }
            Command::Get { delete } => {
                if *delete {
                    self.keys.remove(&k);
                }
                KResult::Value(existing.map(|e| e.value))
            }
            Command::Delete => {
                self.keys.remove(&k);
                KResult::Status(if existing.is_some() { KeyStatus::Deleted } else { KeyStatus::NotChanged })
            }
            Command::Increment { amount, saturating } | Command::Decrement { amount, saturating } => {
                let up = matches!(op.command, Command::Increment { .. });
                let old = match existing.as_ref().map(|e| &e.value) {
                    None => Numeric::UnsignedInteger(0),
                    Some(Value::Numeric(n)) => n.clone(),
                    Some(Value::Bytes(_)) => return KResult::NotNumeric,
                };
                let new = arithmetic(&old, amount, up, *saturating);
                if matches!(new, Numeric::Float(f) if f.is_nan()) {
                    return KResult::NotANumber;
                }
                let value = Value::Numeric(new);
                let (exp, loose) = existing.map_or((None, false), |e| (e.exp, e.loose));
                self.keys.insert(k, KEntry { value: value.clone(), exp, loose });
                KResult::Value(Some(value))
            }
        }
    }
}

// ---------- generators ----------

pub const KEYS: [&str; 6] = ["a", "b", "c", "long/key with spaces", "ключ", ""];
pub fn gen_key(s: &mut Source) -> KvKey {
    let ns = match s.weighted(&[6, 3, 2, 1]) {
        0 => None,
        1 => Some("n".to_string()),
        2 => Some("m".to_string()),
        _ => Some("n/a".to_string()),
    };
    (ns, KEYS[s.weighted(&[6, 4, 2, 1, 1, 1])].to_string())
}
pub fn gen_numeric(s: &mut Source) -> Numeric {
    match s.draw(2) {
        0 => Numeric::UnsignedInteger(if s.bool() { s.draw(20) } else { s.interesting_u64(u64::MAX) }),
        1 => {
            let v = if s.bool() { s.draw(20) } else { s.interesting_u64(u64::MAX) } as i64;
            Numeric::Integer(if s.bool() { v } else { v.wrapping_neg() })
        }
        _ => Numeric::Float(match s.draw(9) {
            0 => 0.0,
            1 => 1.5,
            2 => -2.25,
            3 => f64::INFINITY,
            4 => f64::NEG_INFINITY,
            5 => f64::NAN,
            6 => 1e300,
            7 => -1e-300,
            8 => s.interesting_u64(u64::MAX) as f64,
            _ => f64::from_bits(s.interesting_u64(u64::MAX)),
        }),
    }
}
fn gen_value(s: &mut Source) -> Value {
    if s.chance(3, 5) {
        Value::Numeric(gen_numeric(s))
    } else if s.chance(1, 12) {
        Value::Bytes(Bytes::from(vec![7; s.draw(20_000) as usize]))
    } else {
        Value::Bytes(Bytes::from(s.bytes(12, 4)))
    }
}
/// `near` also draws expirations a few milliseconds away.
fn gen_expiration(s: &mut Source, near: bool) -> Option<Timestamp> {
    let now = Timestamp::now();
    match s.weighted(&[5, 2, 1, if near { 5 } else { 0 }]) {
        0 => None,
        1 => Some(now + Duration::from_secs(86_400 * (1 + s.draw(400)))),
        2 => Some(match s.draw(2) {
            0 => Timestamp::MIN,
            _ => now,
        }),
        _ => Some(now + Duration::from_millis(1 + s.draw(30))),
    }
}
pub fn gen_kop(s: &mut Source, m: &KModel, near: bool) -> KeyOperation {
    let existing: Vec<&KvKey> = m.keys.keys().collect();
    let (namespace, key) = if !existing.is_empty() && s.bool() { (*s.pick(&existing)).clone() } else { gen_key(s) };
    let command = match s.weighted(&[8, 4, 1, 3, 4, 3]) {
        0 => Command::Set(SetCommand {
            value: gen_value(s),
            expiration: gen_expiration(s, near),
            keep_existing_expiration: s.chance(1, 4),
            check: match s.weighted(&[4, 1, 1]) {
                0 => None,
                1 => Some(KeyCheck::OnlyIfPresent),
                _ => Some(KeyCheck::OnlyIfVacant),
            },
            return_previous_value: s.chance(1, 3),
        }),
        1 => Command::Get { delete: false },
        2 => Command::Get { delete: true },
        3 => Command::Delete,
        4 => Command::Increment { amount: gen_numeric(s), saturating: s.bool() },
        _ => Command::Decrement { amount: gen_numeric(s), saturating: s.bool() },
    };
    KeyOperation { namespace, key, command }
}

// ---------- execution ----------

/// The same operation through the typed builders where they can express it.
fn typed<K: KeyValue>(db: &K, op: &KeyOperation) -> Option<Result<Output, Error>> {
    let key = op.key.clone();
    let num = |n: Numeric| Output::Value(Some(Value::Numeric(n)));
    Some(match &op.command {
        Command::Set(set) => {
            let prev = set.return_previous_value;
            macro_rules! run {
                ($b:expr) => {{
                    let mut b = $b;
                    if let Some(e) = set.expiration {
                        if e == Timestamp::MIN {
                            return None;
                        }
                        b = b.expire_at(std::time::SystemTime::UNIX_EPOCH + Duration::from(e));
                    }
                    if set.keep_existing_expiration {
                        b = b.keep_existing_expiration();
                    }
                    b = match set.check {
                        None => b,
                        Some(KeyCheck::OnlyIfPresent) => b.only_if_exists(),
                        Some(KeyCheck::OnlyIfVacant) => b.only_if_vacant(),
                    };
                    if prev {
                        b.returning_previous().map(Output::Value)
                    } else {
                        b.execute().map(Output::Status)
                    }
                }};
            }
            match &set.value {
                Value::Bytes(v) => run!(db.set_binary_key(key, v)),
                Value::Numeric(n) => run!(db.set_numeric_key(key, n.clone())),
            }
        }
        Command::Get { delete } => {
            let b = db.get_key(key);
            let b = if *delete { b.and_delete() } else { b };
            b.query().map(Output::Value)
        }
        Command::Delete => db.delete_key(key).map(Output::Status),
        Command::Increment { amount, saturating } | Command::Decrement { amount, saturating } => {
            let up = matches!(op.command, Command::Increment { .. });
            macro_rules! run {
                ($v:expr, $variant:ident) => {{
                    let b = if up { db.increment_key_by(key, $v) } else { db.decrement_key_by(key, $v) };
                    let b = if *saturating { b } else { b.allow_overflow() };
                    b.execute().map(|v| num(Numeric::$variant(v)))
                }};
            }
            match amount {
                Numeric::Integer(v) => run!(*v, Integer),
                Numeric::UnsignedInteger(v) => run!(*v, UnsignedInteger),
                Numeric::Float(v) => run!(*v, Float),
            }
        }
    })
}
pub fn exec(db: &Database, op: &KeyOperation, use_typed: bool) -> Result<Output, Error> {
    if use_typed {
        let r = match &op.namespace {
            None => typed(db, op),
            Some(ns) => typed(&db.with_key_namespace(ns), op),
        };
        if let Some(r) = r {
            return r;
        }
    }
    db.execute_key_operation(op.clone())
}
pub fn classify(r: Result<Output, Error>) -> Res<KResult> {
    Ok(match r {
        Ok(Output::Status(s)) => KResult::Status(s),
        Ok(Output::Value(v)) => KResult::Value(v),
        Err(Error::NotANumber) => KResult::NotANumber,
        Err(Error::Other { error, .. }) if error.contains("not `Numeric`") => KResult::NotNumeric,
        Err(e) => fail!("key-value operation failed: {e:?}"),
    })
}

pub struct KWorld {
    path: PathBuf,
    persistence: KeyValuePersistence,
    pub storage: Option<Storage>,
    pub db: Option<Database>,
    pub m: KModel,
    /// Other states a key may be in: an operation which ran around the time
    /// of an expiration can have the same result before and after it.
    alts: BTreeMap<KvKey, Vec<Option<KEntry>>>,
    none_is_unchanged: bool,
    _scratch: Scratch,
}
fn open(path: &Path, p: &KeyValuePersistence) -> Res<Storage> {
    Storage::open(config(path).key_value_persistence(p.clone())).or_fail("opening storage")
}
pub fn gen_persistence(s: &mut Source) -> KeyValuePersistence {
    match s.draw(4) {
        0 => KeyValuePersistence::immediate(),
        1 => KeyValuePersistence::lazy([]),
        2 => KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1 + s.draw(6) as usize)]),
        3 => KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1).and_duration(Duration::from_millis(s.draw(10)))]),
        _ => KeyValuePersistence::lazy([
            PersistenceThreshold::after_changes(1).and_duration(Duration::from_secs(60)),
            PersistenceThreshold::after_changes(2 + s.draw(10) as usize).and_duration(Duration::from_millis(s.draw(20))),
        ]),
    }
}
impl KWorld {
    pub fn new(s: &mut Source) -> Res<Self> {
        let persistence = gen_persistence(s);
        let scratch = Scratch::new();
        let path = scratch.path("db.bonsaidb");
        let storage = open(&path, &persistence)?;
        let db = storage.create_database::<Main>("main", false).or_fail("create_database")?;
        Ok(Self { path, persistence, storage: Some(storage), db: Some(db), m: KModel::default(), alts: BTreeMap::new(), none_is_unchanged: false, _scratch: scratch })
    }
    pub fn db(&self) -> &Database {
        self.db.as_ref().expect("HARNESS: open")
    }
    pub fn reopen(&mut self) -> Res {
        self.db = None;
        self.storage = None;
        let storage = open(&self.path, &self.persistence)?;
        self.db = Some(storage.database::<Main>("main").or_fail("opening the database again")?);
        self.storage = Some(storage);
        for e in self.m.keys.values_mut().chain(self.alts.values_mut().flatten().flatten()) {
            e.loose = e.exp.is_some();
        }
        Ok(())
    }
    /// Runs an operation and checks its result. A key whose expiration lies
    /// within the duration of the call may be there or not.
    pub fn op(&mut self, op: &KeyOperation, use_typed: bool, ctx: &mut Ctx) -> Res {
        let key: KvKey = (op.namespace.clone(), op.key.clone());
        let before = Timestamp::now();
        let got = classify(exec(self.db(), op, use_typed))?;
        let after = Timestamp::now();
        // The builder reports an unchanged key as no previous value.
        self.none_is_unchanged = use_typed && matches!(&op.command, Command::Set(s) if s.return_previous_value);
        self.settle(&key, op, got, before, after, ctx)
    }
    fn settle(&mut self, key: &KvKey, op: &KeyOperation, got: KResult, before: Timestamp, after: Timestamp, ctx: &mut Ctx) -> Res {
        let mut states = vec![self.m.keys.get(key).cloned()];
        states.extend(self.alts.get(key).into_iter().flatten().cloned());
        let mut befores: Vec<Option<KEntry>> = vec![];
        for st in states {
            if let Some(KEntry { exp: Some(exp), loose, .. }) = &st {
                if *exp <= after && !befores.contains(&None) {
                    befores.push(None);
                }
                if *exp <= before && !*loose {
                    ctx.count("operations_on_expired_keys");
                    continue;
                }
            }
            if !befores.contains(&st) {
                befores.push(st);
            }
        }
        let (mut wanted, mut afters) = (vec![], vec![]);
        for st in &befores {
            let mut m = KModel::default();
            if let Some(e) = st {
                m.keys.insert(key.clone(), e.clone());
            }
            let want = m.apply(op);
            if same(&got, &want) || self.none_is_unchanged && got == KResult::Value(None) && want == KResult::Status(KeyStatus::NotChanged) {
                let next = m.keys.remove(key);
                if !afters.contains(&next) {
                    afters.push(next);
                }
            } else {
                wanted.push(want);
            }
        }
        if afters.is_empty() {
            fail!("{op:?}: result {}, expected {}; the key held {}", short(&got), short(&wanted), short(&befores));
        }
        // Prefer a state with a value: it is waited for when it expires.
        afters.sort_by_key(Option::is_none);
        match afters.remove(0) {
            Some(e) => drop(self.m.keys.insert(key.clone(), e)),
            None => drop(self.m.keys.remove(key)),
        }
        if afters.is_empty() {
            self.alts.remove(key);
        } else {
            ctx.count("ambiguous_expirations");
            self.alts.insert(key.clone(), afters);
        }
        Ok(())
    }
    /// Every key of the pool, by reading.
    pub fn check_all(&mut self, what: &str, ctx: &mut Ctx) -> Res {
        let mut keys: Vec<KvKey> = self.m.keys.keys().cloned().collect();
        for ns in [None, Some("n".to_string()), Some("m".to_string()), Some("n/a".to_string())] {
            for k in KEYS {
                keys.push((ns.clone(), k.to_string()));
            }
        }
        keys.sort();
        keys.dedup();
        for (namespace, key) in keys {
            let op = KeyOperation { namespace, key, command: Command::Get { delete: false } };
            self.op(&op, false, ctx).map_err(|mut e| {
                e.msg = format!("{what}: {}", e.msg);
                e
            })?;
        }
        Ok(())
    }
    /// Waits for keys which must have expired to disappear.
    pub fn await_expired(&mut self, ctx: &mut Ctx) -> Res {
        let now = Timestamp::now();
        let gone = |e: &KEntry| e.exp.is_some_and(|x| x <= now);
        let due: Vec<KvKey> = self
            .m
            .keys
            .iter()
            .filter(|(k, e)| gone(e) && self.alts.get(*k).into_iter().flatten().flatten().all(gone))
            .map(|(k, _)| k.clone())
            .collect();
        let start = Instant::now();
        for (namespace, key) in due {
            let get = KeyOperation { namespace: namespace.clone(), key: key.clone(), command: Command::Get { delete: false } };
            loop {
                if classify(exec(self.db(), &get, false))? == KResult::Value(None) {
                    break;
                }
                ensure!(start.elapsed() < Duration::from_secs(20), "key {namespace:?}/{key:?} is still there 20 s after it expired");
                std::thread::sleep(Duration::from_millis(2));
            }
            ctx.count("expired_keys_seen_gone");
            self.alts.remove(&(namespace.clone(), key.clone()));
            self.m.keys.remove(&(namespace, key));
        }
        Ok(())
    }
}

fn run(s: &mut Source, ctx: &mut Ctx, near: bool, reopen: u64) -> Res {
    let mut w = KWorld::new(s)?;
    let n = 3 + s.draw(40);
    for _ in 0..n {
        match s.weighted(&[30, 2, if near { 3 } else { 0 }, reopen]) {
            0 => {
                let op = gen_kop(s, &w.m, near);
                let t = s.bool();
                ctx.log(format!("{op:?}{}", if t { " (typed)" } else { "" }));
                w.op(&op, t, ctx)?;
            }
            1 => {
                ctx.log("check all");
                w.check_all("history", ctx)?;
            }
            2 => {
                let d = s.draw(25);
                ctx.log(format!("sleep {d} ms"));
                std::thread::sleep(Duration::from_millis(d));
                ctx.count("sleeps");
            }
            _ => {
                ctx.log("reopen");
                w.reopen()?;
                ctx.count("reopens");
                if w.m.keys.values().any(|e| e.exp.is_none()) {
                    ctx.count("reopens_with_durable_keys");
                }
                if s.bool() {
                    w.await_expired(ctx)?;
                }
                if s.bool() {
                    w.check_all("after reopening", ctx)?;
                }
            }
        }
    }
    w.check_all("at the end", ctx)?;
    if reopen > 0 {
        // Close right after a burst of writes.
        for _ in 0..s.draw(8) {
            let op = gen_kop(s, &w.m, near);
            ctx.log(format!("{op:?} (burst)"));
            w.op(&op, false, ctx)?;
        }
        w.reopen()?;
        w.check_all("after the last reopening", ctx)?;
        w.await_expired(ctx)?;
        w.check_all("after the last reopening and expirations", ctx)?;
    }
    if w.m.keys.len() >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

/// Exactness of the numeric conversions.
fn conversions(s: &mut Source, ctx: &mut Ctx) -> Res {
    let n = match s.draw(3) {
        0 => Numeric::Float(f64::from_bits(s.interesting_u64(u64::MAX))),
        1 => Numeric::Float((s.irange(-4, 4) as f64).mul_add(0.5, [0., 9.223_372_036_854_775e18, -9.223_372_036_854_776e18, 1.844_674_407_370_955e19, 1e-17, -1e-17][s.below(6)])),
        _ => gen_numeric(s),
    };
    ctx.log(format!("{n:?}"));
    ctx.nontrivial();
    // The exact value, when it is an integer.
    let exact: Option<i128> = match &n {
        Numeric::Integer(v) => Some(i128::from(*v)),
        Numeric::UnsignedInteger(v) => Some(i128::from(*v)),
        Numeric::Float(f) if f.is_finite() && f.trunc() == *f && f.abs() < 1e30 => Some(*f as i128),
        Numeric::Float(_) => None,
    };
    ensure_eq!(n.as_i64(), exact.and_then(|v| i64::try_from(v).ok()), "as_i64 of {n:?}");
    let want = exact.and_then(|v| u64::try_from(v).ok());
    if !matches!(n, Numeric::Float(f) if f == 0. && f.is_sign_negative()) {
        ensure_eq!(n.as_u64(), want, "as_u64 of {n:?}");
    }
    ensure_eq!(n.as_i64_lossy(true), to_i64(&n, true), "as_i64_lossy(true) of {n:?}");
    ensure_eq!(n.as_i64_lossy(false), to_i64(&n, false), "as_i64_lossy(false) of {n:?}");
    ensure_eq!(n.as_u64_lossy(true), to_u64(&n, true), "as_u64_lossy(true) of {n:?}");
    ensure_eq!(n.as_u64_lossy(false), to_u64(&n, false), "as_u64_lossy(false) of {n:?}");
    if let Some(f) = n.as_f64() {
        let same = match &n {
            Numeric::Float(v) => v.to_bits() == f.to_bits(),
            _ => exact == Some(f as i128),
        };
        ensure!(same, "as_f64 of {n:?} is {f}");
    } else {
        ensure!(exact.is_some_and(|v| v.unsigned_abs() > 1 << 53), "as_f64 of {n:?} is None");
    }
    Ok(())
}

/// Two keys which the documentation treats as different and which share one
/// stored key.
fn aliasing(_s: &mut Source, ctx: &mut Ctx) -> Res {
    ctx.nontrivial();
    let scratch = Scratch::new();
    let storage = open(&scratch.path("db.bonsaidb"), &KeyValuePersistence::immediate())?;
    let db = storage.create_database::<Main>("main", false).or_fail("create_database")?;
    db.set_numeric_key("b\0c", 1_u64).execute().or_fail("set")?;
    let ns = db.with_key_namespace("");
    let got = ns.get_key("b\0c").query().or_fail("get")?;
    if got.is_some() {
        return Err(Failure::sig("empty-namespace-is-no-namespace", "a key set without namespace is visible in the namespace \"\""));
    }
    Ok(())
}
fn aliasing_nul(_s: &mut Source, ctx: &mut Ctx) -> Res {
    ctx.nontrivial();
    let scratch = Scratch::new();
    let storage = open(&scratch.path("db.bonsaidb"), &KeyValuePersistence::immediate())?;
    let db = storage.create_database::<Main>("main", false).or_fail("create_database")?;
    db.with_key_namespace("a").set_numeric_key("b\0c", 1_u64).execute().or_fail("set")?;
    let got = db.with_key_namespace("a\0b").get_key("c").query().or_fail("get")?;
    if got.is_some() {
        return Err(Failure::sig("nul-in-namespace-aliases", "key \"b\\0c\" of namespace \"a\" is visible as key \"c\" of namespace \"a\\0b\""));
    }
    Ok(())
}

const ASSUME: &[&str] = &["the system clock does not jump while a case runs", "namespaces are non-empty and without NUL (known findings, C10-known)"];
pub fn c10() -> Property {
    Property {
        id: "C10",
        level: "exploration",
        rule: "a case is a history of key-value operations (set with every option, get, get-and-delete, delete, increments and decrements of every numeric type, saturating or not) under a generated persistence policy, each result compared with a map; or a numeric conversion; non-trivial = at least two keys held values",
        assumptions: ASSUME,
        sections: vec![
            section("operations", 4_000, 400_000, |s, c| run(s, c, false, 0)),
            section("conversions", 40_000, 2_000_000, conversions),
            section("known-empty", 1, 1, aliasing),
            section("known-nul", 1, 1, aliasing_nul),
        ],
    }
}
/// Several databases of one storage, each with keys that expire.
fn several(s: &mut Source, ctx: &mut Ctx) -> Res {
    let persistence = gen_persistence(s);
    let scratch = Scratch::new();
    let path = scratch.path("db.bonsaidb");
    let mut storage = open(&path, &persistence)?;
    let world = |storage: &Storage, name: &str| -> Res<KWorld> {
        let db = storage.create_database::<Main>(name, false).or_fail("create_database")?;
        let (path, persistence) = (path.clone(), persistence.clone());
        Ok(KWorld { path, persistence, storage: Some(storage.clone()), db: Some(db), m: KModel::default(), alts: BTreeMap::new(), none_is_unchanged: false, _scratch: Scratch::new() })
    };
    let mut ws: Vec<(String, KWorld)> = vec![];
    for i in 0..2 + s.draw(3) {
        let name = format!("d{i}");
        let w = world(&storage, &name)?;
        ws.push((name, w));
    }
    ctx.log(format!("{} databases, {persistence:?}", ws.len()));
    let mut reopened = false;
    for _ in 0..4 + s.draw(24) {
        let i = s.below(ws.len());
        match s.weighted(&[24, 3, 3, 2, 2]) {
            0 => {
                let (name, w) = &mut ws[i];
                for _ in 0..1 + s.draw(2) {
                    let op = gen_kop(s, &w.m, true);
                    ctx.log(format!("{name}: {op:?}"));
                    w.op(&op, false, ctx).map_err(|mut e| {
                        e.msg = format!("{name}: {}", e.msg);
                        e
                    })?;
                }
            }
            1 => {
                let d = s.draw(25);
                ctx.log(format!("sleep {d} ms"));
                std::thread::sleep(Duration::from_millis(d));
            }
            2 => {
                let (name, w) = &mut ws[i];
                ctx.log(format!("check {name}"));
                w.check_all(name, ctx)?;
                w.await_expired(ctx)?;
            }
            3 => {
                let (name, w) = &mut ws[i];
                ctx.log(format!("delete and create {name}"));
                w.db = None;
                w.storage = None;
                storage.delete_database(name).or_fail("delete_database")?;
                *w = world(&storage, name)?;
                w.check_all("a recreated database", ctx)?;
                ctx.count("recreated_databases");
            }
            _ => {
                ctx.log("reopen");
                for (_, w) in &mut ws {
                    w.db = None;
                    w.storage = None;
                }
                drop(storage);
                storage = open(&path, &persistence)?;
                // Opened in any order.
                for i in 0..ws.len() {
                    let j = i + s.below(ws.len() - i);
                    ws.swap(i, j);
                    let (name, w) = &mut ws[i];
                    w.db = Some(storage.database::<Main>(name).or_fail("opening the database again")?);
                    w.storage = Some(storage.clone());
                    for e in w.m.keys.values_mut().chain(w.alts.values_mut().flatten().flatten()) {
                        e.loose = e.exp.is_some();
                    }
                }
                ctx.count("reopens");
                reopened |= ws.iter().filter(|(_, w)| w.m.keys.values().any(|e| e.exp.is_some())).count() >= 2;
            }
        }
    }
    for (name, w) in &mut ws {
        w.await_expired(ctx).map_err(|mut e| {
            e.msg = format!("{name}: {}", e.msg);
            e
        })?;
        w.check_all(&format!("{name} at the end"), ctx)?;
    }
    if reopened {
        ctx.nontrivial();
    }
    Ok(())
}
pub fn c11() -> Property {
    Property {
        id: "C11",
        level: "exploration",
        rule: "a case is a history of key-value operations with expirations in the past, milliseconds ahead and far ahead, pauses, and clean closings right after writes followed by reopening, under a generated persistence policy; or a history of several databases of one storage, also deleted, recreated and reopened in any order; non-trivial = at least two keys held values (or two databases held expiring keys when reopened)",
        assumptions: ASSUME,
        sections: vec![section("expiration", 900, 60_000, |s, c| run(s, c, true, 3)), section("databases", 400, 30_000, several)],
    }
}
