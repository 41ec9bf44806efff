//! C02: decoding untrusted bytes and text.
use std::fmt::Debug;
use std::str::FromStr;
use std::time::{Duration, SystemTime};

use bonsaidb_core::api::ApiName;
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{self, Bound, Range, SerializedQueryKey, Session, Sort};
use bonsaidb_core::document::{DocumentId, Header, OwnedDocument, Revision};
use bonsaidb_core::key::time::limited::{BonsaiEpoch, UnixEpoch};
use bonsaidb_core::key::time::{limited, *};
use bonsaidb_core::key::{ByteSource, Key, KeyEncoding, VarInt};
use bonsaidb_core::keyvalue::{self, KeyOperation, Numeric, Output, Timestamp, Value};
use bonsaidb_core::networking;
use bonsaidb_core::schema::view::map::{MappedSerializedDocuments, MappedSerializedValue};
use bonsaidb_core::schema::{CollectionName, Name, Qualified, QualifiedName, SchemaName, SchemaSummary, ViewName};
use bonsaidb_core::transaction::{Executed, Operation, OperationResult, Transaction};
use serde::de::DeserializeOwned;
use serde::Serialize;

use crate::engine::*;
use crate::keys::{self, KGen};
use crate::{ensure, fail};

pub fn mutate(s: &mut Source, v: &mut Vec<u8>) {
    let n = 1 + s.draw(2);
    for _ in 0..n {
        match s.draw(7) {
            0 => {
                let l = s.draw(v.len() as u64) as usize;
                v.truncate(l);
            }
            1 => {
                let mut e = s.bytes(4, 2);
                v.append(&mut e);
            }
            2 | 3 => {
                if !v.is_empty() {
                    let i = s.below(v.len());
                    v[i] = match s.draw(4) {
                        0 => 0,
                        1 => 0xff,
                        2 => v[i] ^ (1 << s.draw(7)),
                        3 => v[i].wrapping_add(1),
                        _ => s.draw(255) as u8,
                    };
                }
            }
            4 => {
                let i = s.draw(v.len() as u64) as usize;
                v.insert(i, *[0u8, 0xff, 0x80, 1].get(s.below(4)).unwrap());
            }
            5 => {
                if !v.is_empty() {
                    let i = s.below(v.len());
                    v.remove(i);
                }
            }
            6 => {
                if v.len() > 1 {
                    let i = s.below(v.len());
                    let j = s.below(v.len());
                    v.swap(i, j);
                }
            }
            _ => {
                let l = v.len();
                let e: Vec<u8> = (0..s.draw(10)).map(|_| 0xff).collect();
                v.splice(l..l, e);
            }
        }
    }
}

fn untrusted(s: &mut Source, valid: impl FnOnce(&mut Source) -> Option<Vec<u8>>) -> Vec<u8> {
    match s.draw(3) {
        0 => s.bytes(12, 4),
        _ => {
            let mut v = valid(s).unwrap_or_default();
            v.truncate(2000);
            mutate(s, &mut v);
            v
        }
    }
}

fn key<T: KGen>(s: &mut Source, ctx: &mut Ctx) -> Res {
    let bytes = untrusted(s, |s| T::g(s).as_ord_bytes().ok().map(|b| b.into_owned()));
    ctx.log(format!("{} from {bytes:02x?}", T::name()));
    raw_key::<T>(&bytes, ctx)
}
fn raw_key<T: for<'k> Key<'k> + PartialEq + Debug + 'static>(bytes: &[u8], ctx: &mut Ctx) -> Res {
    let name = std::any::type_name::<T>();
    let owned = bytes.to_vec();
    let r = catch(|| T::from_ord_bytes(ByteSource::Borrowed(bytes)));
    let e = catch(|| T::from_ord_bytes(ByteSource::Ephemeral(bytes)));
    let o = catch(|| T::from_ord_bytes(ByteSource::Owned(owned)));
    for r in [&r, &e, &o] {
        if let Err(p) = r {
            fail!("decoding {bytes:02x?} as {name} panicked: {p}");
        }
    }
    let (r, e, o) = (r.unwrap(), e.unwrap(), o.unwrap());
    ensure!(r.is_ok() == e.is_ok() && r.is_ok() == o.is_ok(), "{name}: sources disagree about {bytes:02x?}");
    if let (Ok(v), Ok(e), Ok(o)) = (r, e, o) {
        ensure!(v == e && v == o, "{name}: sources disagree about {bytes:02x?}: {v:?} {e:?} {o:?}");
        ctx.nontrivial();
        ctx.count("key_bytes_accepted");
        match catch(|| v.as_ord_bytes().map(|b| b.into_owned()).map_err(|e| e.to_string())) {
            Err(p) => fail!("{name}: {v:?}, decoded from {bytes:02x?}, panics when encoded: {p}"),
            Ok(Err(e)) => fail!("{name}: {v:?}, decoded from {bytes:02x?}, cannot be encoded: {e}"),
            Ok(Ok(b)) => match T::from_ord_bytes(ByteSource::Borrowed(&b)) {
                Ok(v2) => ensure!(v2 == v, "{name}: {bytes:02x?} decodes to {v:?}, which re-encodes to {b:02x?}, which decodes to {v2:?}"),
                Err(e) => fail!("{name}: {bytes:02x?} decodes to {v:?}, which re-encodes to {b:02x?}, which does not decode: {e:?}"),
            },
        }
    } else {
        ctx.count("key_bytes_refused");
    }
    Ok(())
}

#[allow(deprecated)]
fn deprecated_keys(s: &mut Source, ctx: &mut Ctx) -> Res {
    use bonsaidb_core::key::{decode_composite_field, encode_composite_field, OptionKeyV1, TupleEncodingV1};
    let bytes = untrusted(s, |s| {
        let mut v = vec![];
        let st = s.string(5, 3);
        let n = s.draw(255) as u8;
        encode_composite_field(&st, &mut v).ok()?;
        encode_composite_field(&n, &mut v).ok()?;
        Some(v)
    });
    ctx.log(format!("deprecated from {bytes:02x?}"));
    macro_rules! t {
        ($t:ty) => {
            match catch(|| TupleEncodingV1::<$t>::from_ord_bytes(ByteSource::Borrowed(&bytes))) {
                Err(p) => fail!("decoding {bytes:02x?} as TupleEncodingV1<{}> panicked: {p}", stringify!($t)),
                Ok(Ok(v)) => {
                    ctx.nontrivial();
                    let b = v.as_ord_bytes().map_err(|e| Failure::new(format!("re-encode: {e}")))?.into_owned();
                    let v2 = TupleEncodingV1::<$t>::from_ord_bytes(ByteSource::Borrowed(&b)).map_err(|e| Failure::new(format!("re-decode: {e}")))?;
                    ensure!(v.0 == v2.0, "deprecated tuple {:?} round trips to {:?}", v.0, v2.0);
                }
                Ok(Err(_)) => {}
            }
        };
    }
    t!((String, u8));
    t!((u8, String));
    t!((Vec<u8>, u32, Vec<u8>));
    t!((u8, u16));
    match catch(|| decode_composite_field::<String>(&bytes).map(|(a, b)| (a, b.to_vec()))) {
        Err(p) => fail!("decode_composite_field of {bytes:02x?} panicked: {p}"),
        Ok(_) => {}
    }
    match catch(|| OptionKeyV1::<u32>::from_ord_bytes(ByteSource::Borrowed(&bytes)).map(|v| v.0).ok()) {
        Err(p) => fail!("OptionKeyV1 of {bytes:02x?} panicked: {p}"),
        Ok(_) => {}
    }
    match catch(|| OptionKeyV1::<String>::from_ord_bytes(ByteSource::Borrowed(&bytes)).map(|v| v.0).ok()) {
        Err(p) => fail!("OptionKeyV1 of {bytes:02x?} panicked: {p}"),
        Ok(_) => {}
    }
    Ok(())
}

fn gen_parse_text(s: &mut Source) -> String {
    match s.weighted(&[300, 300, 300, 300, 300, 300, 1]) {
        0 => s.string(12, 5),
        1 => s.list(0, 12, 5, |s| *s.pick(&['.', '_', '-', 'a', '0', '9', 'f', '$', '+', 'é'])).into_iter().collect(),
        2 => format!("{}.{}", s.interesting_u64(u64::MAX), s.interesting_u64(u64::MAX)),
        3 => {
            let z = s.interesting_u64(u64::MAX);
            let h: String = s.list(0, 20, 6, |s| *s.pick(&['0', '1', 'f', 'A', 'g', '$'])).into_iter().collect();
            format!("{z:x}${h}")
        }
        4 => {
            let mut b = DocumentId::try_from(&s.bytes(20, 6)[..]).map(|d| d.to_string()).unwrap_or_default().into_bytes();
            mutate(s, &mut b);
            String::from_utf8_lossy(&b).into_owned()
        }
        5 => crate::idents::gen_text(s),
        _ => {
            let n = 65_530 + s.draw(20) as usize;
            let c = *s.pick(&["a", "0", "é", "$", "_2e", "0$"]);
            c.repeat(n)
        }
    }
}

fn text(s: &mut Source, ctx: &mut Ctx) -> Res {
    let t = gen_parse_text(s);
    ctx.log(format!("parse {t:?}"));
    match catch(|| DocumentId::from_str(&t)) {
        Err(p) => fail!("parsing {} as a document id panicked: {p}", short(&t)),
        Ok(Ok(id)) => {
            ctx.nontrivial();
            let again = id.to_string();
            match DocumentId::from_str(&again) {
                Ok(b) => ensure!(b == id, "{} parses to {id:?}, printed as {again} parses to {b:?}", short(&t)),
                Err(e) => fail!("{} parses to {id:?}, printed as {again}, which does not parse: {e}", short(&t)),
            }
        }
        Ok(Err(_)) => {}
    }
    macro_rules! named {
        ($($t:ident :: $f:ident),*) => {$(
            match catch(|| $t::$f(&t)) {
                Err(p) => fail!("parsing {} as {} panicked: {p}", short(&t), stringify!($t)),
                Ok(Ok(n)) => {
                    ctx.nontrivial();
                    let again = format!("{n:#}");
                    match $t::$f(&again) {
                        Ok(b) => ensure!(b == n, "{} parses to {n:?}, encoded as {again} parses to {b:?}", short(&t)),
                        Err(e) => fail!("{} parses to {n:?}, encoded as {again}, which does not parse: {e}", short(&t)),
                    }
                }
                Ok(Err(_)) => {}
            }
        )*};
    }
    named!(Name::parse_encoded, QualifiedName::parse_encoded, SchemaName::parse_encoded, CollectionName::parse_encoded, ViewName::from_str, ApiName::parse_encoded);
    macro_rules! ts {
        ($($t:ty),*) => {$(
            match catch(|| t.parse::<$t>()) {
                Err(p) => fail!("parsing {} as {} panicked: {p}", short(&t), std::any::type_name::<$t>()),
                Ok(Ok(v)) => {
                    ctx.nontrivial();
                    if let Ok(again) = v.to_timestamp_string() {
                        match again.parse::<$t>() {
                            Ok(b) => ensure!(b == v, "{t} parses to {again}, which parses to {b}"),
                            Err(e) => fail!("{t} parses to {again}, which does not parse: {e}"),
                        }
                    }
                }
                Ok(Err(_)) => {}
            }
        )*};
    }
    ts!(limited::LimitedResolutionTimestamp<limited::Nanoseconds, UnixEpoch>, limited::LimitedResolutionTimestamp<limited::Seconds, BonsaiEpoch>,
        limited::LimitedResolutionTimestamp<limited::Weeks, UnixEpoch>, limited::LimitedResolutionTimestamp<limited::Days, BonsaiEpoch>);
    Ok(())
}

// ---- protocol values ----

pub fn gen_doc_id(s: &mut Source) -> DocumentId {
    DocumentId::try_from(&s.bytes(20, 5)[..]).expect("HARNESS: id")
}
fn gen_bytes(s: &mut Source) -> Bytes {
    Bytes::from(s.bytes(20, 4))
}
fn gen_col(s: &mut Source) -> CollectionName {
    CollectionName::new(crate::idents::gen_text(s), crate::idents::gen_text(s))
}
fn gen_view(s: &mut Source) -> ViewName {
    ViewName { collection: gen_col(s), name: Name::from(crate::idents::gen_text(s)) }
}
fn gen_bound<T>(s: &mut Source, f: impl FnOnce(&mut Source) -> T) -> Bound<T> {
    match s.draw(2) {
        0 => Bound::Unbounded,
        1 => Bound::Included(f(s)),
        _ => Bound::Excluded(f(s)),
    }
}
fn gen_header(s: &mut Source) -> Header {
    let mut sha256 = [0u8; 32];
    for b in sha256.iter_mut() {
        *b = s.draw(255) as u8;
    }
    Header { id: gen_doc_id(s), revision: Revision { id: s.interesting_u64(u64::from(u32::MAX)) as u32, sha256 } }
}
fn gen_operation(s: &mut Source) -> Operation {
    let c = gen_col(s);
    match s.draw(4) {
        0 => Operation::insert(c, s.bool().then(|| gen_doc_id(s)), gen_bytes(s)),
        1 => Operation::update(c, gen_header(s), gen_bytes(s)),
        2 => Operation::overwrite(c, gen_doc_id(s), gen_bytes(s)),
        3 => Operation::delete(c, gen_header(s)),
        _ => Operation::check_document_id_exists(c, gen_doc_id(s)),
    }
}
fn gen_transaction(s: &mut Source) -> Transaction {
    let mut t = Transaction::new();
    for o in s.list(0, 4, 2, gen_operation) {
        t.push(o);
    }
    t
}
fn gen_numeric(s: &mut Source) -> Numeric {
    match s.draw(2) {
        0 => Numeric::Integer(s.interesting_u64(u64::MAX) as i64),
        1 => Numeric::UnsignedInteger(s.interesting_u64(u64::MAX)),
        _ => Numeric::Float(f64::from_bits(s.interesting_u64(u64::MAX))),
    }
}
fn gen_value(s: &mut Source) -> Value {
    if s.bool() {
        Value::Numeric(gen_numeric(s))
    } else {
        Value::Bytes(gen_bytes(s))
    }
}
fn gen_ts(s: &mut Source) -> Timestamp {
    Timestamp { seconds: s.interesting_u64(u64::MAX), nanos: s.draw(999_999_999) as u32 }
}
fn gen_kvop(s: &mut Source) -> KeyOperation {
    KeyOperation {
        namespace: s.bool().then(|| s.string(6, 3)),
        key: s.string(6, 3),
        command: match s.draw(4) {
            0 => keyvalue::Command::Set(keyvalue::SetCommand {
                value: gen_value(s),
                expiration: s.bool().then(|| gen_ts(s)),
                keep_existing_expiration: s.bool(),
                check: match s.draw(2) {
                    0 => None,
                    1 => Some(keyvalue::KeyCheck::OnlyIfPresent),
                    _ => Some(keyvalue::KeyCheck::OnlyIfVacant),
                },
                return_previous_value: s.bool(),
            }),
            1 => keyvalue::Command::Get { delete: s.bool() },
            2 => keyvalue::Command::Increment { amount: gen_numeric(s), saturating: s.bool() },
            3 => keyvalue::Command::Decrement { amount: gen_numeric(s), saturating: s.bool() },
            _ => keyvalue::Command::Delete,
        },
    }
}
fn gen_query_key(s: &mut Source) -> SerializedQueryKey {
    match s.draw(2) {
        0 => SerializedQueryKey::Matches(gen_bytes(s)),
        1 => SerializedQueryKey::Range(Range { start: gen_bound(s, gen_bytes), end: gen_bound(s, gen_bytes) }),
        _ => SerializedQueryKey::Multiple(s.list(0, 4, 2, gen_bytes)),
    }
}
fn gen_sort(s: &mut Source) -> Sort {
    if s.bool() { Sort::Ascending } else { Sort::Descending }
}
fn gen_query(s: &mut Source) -> networking::Query {
    networking::Query {
        database: s.string(5, 2),
        view: gen_view(s),
        key: s.bool().then(|| gen_query_key(s)),
        order: gen_sort(s),
        limit: s.bool().then(|| s.interesting_u64(u64::from(u32::MAX)) as u32),
        access_policy: match s.draw(2) {
            0 => connection::AccessPolicy::UpdateBefore,
            1 => connection::AccessPolicy::UpdateAfter,
            _ => connection::AccessPolicy::NoUpdate,
        },
    }
}
fn gen_list(s: &mut Source) -> networking::List {
    networking::List {
        database: s.string(5, 2),
        collection: gen_col(s),
        ids: Range { start: gen_bound(s, gen_doc_id), end: gen_bound(s, gen_doc_id) },
        order: gen_sort(s),
        limit: s.bool().then(|| s.interesting_u64(u64::from(u32::MAX)) as u32),
    }
}
pub fn gen_error(s: &mut Source) -> bonsaidb_core::Error {
    use bonsaidb_core::Error;
    match s.draw(9) {
        0 => Error::DatabaseNotFound(s.string(5, 3)),
        1 => Error::DocumentConflict(gen_col(s), Box::new(gen_header(s))),
        2 => Error::DocumentNotFound(gen_col(s), Box::new(gen_doc_id(s))),
        3 => Error::ViewNotFound,
        4 => Error::InvalidCredentials,
        5 => Error::CollectionNotFound,
        6 => Error::UniqueKeyViolation { view: gen_view(s), existing_document: Box::new(gen_header(s)), conflicting_document: Box::new(gen_header(s)) },
        7 => Error::DatabaseNameAlreadyTaken(s.string(5, 3)),
        8 => Error::Other { error: s.string(5, 3), origin: s.string(5, 3) },
        _ => Error::InvalidName(bonsaidb_core::schema::InvalidNameError(s.string(5, 3))),
    }
}
fn gen_payload(s: &mut Source) -> networking::Payload {
    networking::Payload {
        session_id: s.bool().then(|| connection::SessionId(s.interesting_u64(u64::MAX))),
        id: s.bool().then(|| s.interesting_u64(u64::from(u32::MAX)) as u32),
        name: ApiName::new(crate::idents::gen_text(s), crate::idents::gen_text(s)),
        value: if s.bool() { Ok(gen_bytes(s)) } else { Err(gen_error(s)) },
    }
}

/// Round trip of a valid value and decoding of its mutations in both formats.
fn protocol<T: Serialize + DeserializeOwned + Debug>(v: T, s: &mut Source, ctx: &mut Ctx) -> Res {
    let name = std::any::type_name::<T>();
    ctx.log(format!("{v:?}"));
    let dbg = format!("{v:?}");
    for f in 0..2 {
        let enc = |v: &T| -> Result<Vec<u8>, String> {
            if f == 0 { pot::to_vec(v).map_err(|e| e.to_string()) } else { bincode::serialize(v).map_err(|e| e.to_string()) }
        };
        let dec = |b: &[u8]| -> Result<T, String> {
            if f == 0 { pot::from_slice(b).map_err(|e| e.to_string()) } else { bincode::deserialize(b).map_err(|e| e.to_string()) }
        };
        let b = enc(&v).or_fail(format!("{name} does not serialise"))?;
        let back = dec(&b).map_err(|e| Failure::new(format!("{name}: {dbg} does not deserialise (format {f}): {e}")))?;
        ensure!(format!("{back:?}") == dbg, "{name}: {dbg} read back as {back:?} (format {f})");
        // pot itself walks absurd element counts one by one when it skips an
        // unknown field, so mutated pot bytes go to hand-written decoders only
        // (section `arbitrary`).
        if f == 0 {
            continue;
        }
        let mut m = b;
        mutate(s, &mut m);
        match catch(|| dec(&m)) {
            Err(p) => fail!("{name}: decoding {m:02x?} (format {f}) panicked: {p}"),
            Ok(Ok(v)) => {
                ctx.nontrivial();
                let b = match catch(|| enc(&v)) {
                    Ok(b) => b.or_fail(format!("{name}: {v:?} from {m:02x?} does not serialise"))?,
                    Err(p) => fail!("{name}: {v:?} from {m:02x?} panics when serialised: {p}"),
                };
                let again = dec(&b).map_err(|e| Failure::new(format!("{name}: {v:?} from mutated bytes does not round trip (format {f}): {e}")))?;
                ensure!(format!("{again:?}") == format!("{v:?}"), "{name}: {v:?} read back as {again:?}");
            }
            Ok(Err(_)) => {}
        }
    }
    Ok(())
}

fn protocol_values(s: &mut Source, ctx: &mut Ctx) -> Res {
    match s.draw(15) {
        0 => { let v = gen_transaction(s); protocol(v, s, ctx) }
        1 => { let v = gen_kvop(s); protocol(v, s, ctx) }
        2 => { let v = gen_query(s); protocol(v, s, ctx) }
        3 => { let v = gen_list(s); protocol(v, s, ctx) }
        4 => { let v = gen_payload(s); protocol(v, s, ctx) }
        5 => { let v = gen_header(s); protocol(v, s, ctx) }
        6 => { let v = gen_error(s); protocol(v, s, ctx) }
        7 => {
            let v = s.list(0, 3, 2, |s| match s.draw(2) {
                0 => OperationResult::Success,
                1 => OperationResult::DocumentUpdated { collection: gen_col(s), header: gen_header(s) },
                _ => OperationResult::DocumentDeleted { collection: gen_col(s), id: gen_doc_id(s) },
            });
            protocol(v, s, ctx)
        }
        8 => { let v = OwnedDocument { header: gen_header(s), contents: gen_bytes(s) }; protocol(v, s, ctx) }
        9 => {
            let v = match s.draw(1) { 0 => Output::Value(s.bool().then(|| gen_value(s))), _ => Output::Status(*s.pick(&[keyvalue::KeyStatus::Inserted, keyvalue::KeyStatus::Deleted, keyvalue::KeyStatus::NotChanged])) };
            protocol(v, s, ctx)
        }
        10 => { let v = gen_doc_id(s); protocol(v, s, ctx) }
        11 => { let v = networking::GetMultiple { database: s.string(4, 2), collection: gen_col(s), ids: s.list(0, 4, 2, gen_doc_id) }; protocol(v, s, ctx) }
        12 => { let v = (TimestampAsSeconds::from_representation(s.interesting_u64(u64::MAX) as i64), VarInt(s.interesting_u64(u64::MAX)), Days::new(s.draw(1 << 31) as i32)); protocol(v, s, ctx) }
        13 => { let v = networking::ApplyTransaction { database: s.string(4, 2), transaction: gen_transaction(s) }; protocol(v, s, ctx) }
        14 => { let v = networking::PublishToAll { database: s.string(4, 2), topics: s.list(0, 3, 2, gen_bytes), payload: gen_bytes(s) }; protocol(v, s, ctx) }
        _ => {
            let v = MappedSerializedDocuments {
                mappings: s.list(0, 3, 2, |s| bonsaidb_core::schema::view::map::Serialized { source: gen_header(s), key: gen_bytes(s), value: gen_bytes(s) }),
                documents: s.list(0, 2, 1, |s| (gen_doc_id(s), OwnedDocument { header: gen_header(s), contents: gen_bytes(s) })).into_iter().collect(),
            };
            protocol(v, s, ctx)
        }
    }
}

/// Arbitrary bytes as every protocol type.
fn arbitrary(s: &mut Source, ctx: &mut Ctx) -> Res {
    let bytes = s.list(0, 40, 12, |s| if s.bool() { s.draw(255) as u8 } else { *s.pick(&[0u8, 1, 2, 4, 0xff, 0x80]) });
    ctx.log(format!("arbitrary {bytes:02x?}"));
    let mut accepted = 0;
    macro_rules! each {
        ($from:literal; $($t:ty),* $(,)?) => {$(
            for f in $from..2 {
                match catch(|| if f == 0 { pot::from_slice::<$t>(&bytes).ok() } else { bincode::deserialize::<$t>(&bytes).ok() }) {
                    Err(p) => fail!("decoding {bytes:02x?} as {} panicked: {p}", std::any::type_name::<$t>()),
                    Ok(Some(_)) => accepted += 1,
                    Ok(None) => {}
                }
            }
        )*};
    }
    each!(0; DocumentId, Name, Timestamp, Duration, SystemTime, VarInt<u64>, VarInt<i32>, TimestampAsNanoseconds, Weeks);
    each!(1; networking::Payload, Transaction, Operation, KeyOperation, networking::Query, networking::List, Header, OwnedDocument, Session,
        Executed, OperationResult, CollectionName, ViewName, SchemaName, Output, Value, SerializedQueryKey, bonsaidb_core::Error,
        MappedSerializedDocuments, MappedSerializedValue, connection::Database, connection::IdentityReference<'static>, connection::Authentication, Vec<SchemaSummary>,
        bonsaidb_core::permissions::Permissions,
        networking::AlterUserRoleMembership, networking::CreateDatabase);
    if accepted > 0 {
        ctx.nontrivial();
        ctx.add("protocol_bytes_accepted", accepted);
    }
    // Serialised query keys and ranges with arbitrary key bytes.
    let q = match s.draw(2) {
        0 => SerializedQueryKey::Matches(Bytes::from(bytes)),
        1 => SerializedQueryKey::Range(Range { start: Bound::Included(Bytes::from(bytes)), end: gen_bound(s, gen_bytes) }),
        _ => SerializedQueryKey::Multiple(vec![Bytes::from(bytes), gen_bytes(s)]),
    };
    for f in 0..4 {
        match catch(|| match f {
            0 => q.deserialized::<u64>().is_ok(),
            1 => q.deserialized::<String>().is_ok(),
            2 => q.deserialized::<(String, u8)>().is_ok(),
            _ => q.deserialized::<Option<u32>>().is_ok(),
        }) {
            Err(p) => fail!("deserialising {q:?} panicked: {p}"),
            Ok(_) => {}
        }
    }
    Ok(())
}

pub fn c02() -> Property {
    let types = keys::decoders();
    Property {
        id: "C02",
        level: "exploration",
        rule: "a case takes a valid encoding of a random value (key, id, text, protocol value in pot or bincode) and mutates it (truncate, extend, flip, insert, delete, swap, 0xff tails), or takes arbitrary bytes/text, and decodes it catching panics; accepted values must re-encode and decode to themselves; non-trivial = the untrusted input was accepted by a decoder",
        assumptions: &["pot, bincode and serde themselves are trusted"],
        sections: vec![
            section("keys", 6_000_000, 60_000_000, move |s, c| {
                let f = *s.pick(&types);
                f(s, c)
            }),
            section("deprecated", 500_000, 6_000_000, deprecated_keys),
            section("text", 600_000, 8_000_000, text),
            section("protocol", 500_000, 6_000_000, protocol_values),
            section("arbitrary", 600_000, 5_000_000, arbitrary),
        ],
    }
}
pub fn key_decoder<T: KGen>(s: &mut Source, c: &mut Ctx) -> Res {
    key::<T>(s, c)
}
