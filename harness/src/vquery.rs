//! The typed interface of views (C09): `Connection::view()` and its
//! asynchronous counterpart with every way of choosing keys, against the
//! views recomputed from the model.
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{AccessPolicy, AsyncConnection, Bound, Connection, QueryKey, Range, RangeRef, SerializedQueryKey, Sort};
use bonsaidb_core::document::{CollectionDocument, Header, OwnedDocument};
use bonsaidb_core::key::{ByteSource, Key, KeyEncoding};
use bonsaidb_core::schema::view::map::{MappedDocuments, MappedValue, Serialized, ViewMappings};
use bonsaidb_core::schema::{Collection, SerializedCollection, SerializedView};

use crate::denied::rt;
use crate::engine::*;
use crate::fix::*;
use crate::hist::*;
use crate::{ensure, ensure_eq};

/// Which keys a query is for, and in which form they are passed.
#[derive(Clone, Debug)]
enum Form<K> {
    All,
    Key(K),
    Keys(Vec<K>),
    Range(Range<K>, bool),
    Prefix(K, bool),
}
impl<K: for<'k> Key<'k> + Clone> Form<K> {
    fn of(key: &Option<SerializedQueryKey>, s: &mut Source) -> Self {
        let de = |b: &Bytes| K::from_ord_bytes(ByteSource::Borrowed(b)).map_err(|e| e.to_string()).expect("HARNESS: key");
        match key {
            None => Form::All,
            Some(SerializedQueryKey::Matches(k)) => Form::Key(de(k)),
            Some(SerializedQueryKey::Multiple(ks)) => Form::Keys(ks.iter().map(de).collect()),
            Some(SerializedQueryKey::Range(r)) => {
                let b = |b: &Bound<Bytes>| match b {
                    Bound::Unbounded => Bound::Unbounded,
                    Bound::Included(k) => Bound::Included(de(k)),
                    Bound::Excluded(k) => Bound::Excluded(de(k)),
                };
                Form::Range(Range { start: b(&r.start), end: b(&r.end) }, s.bool())
            }
        }
    }
}

fn enc<K: KeyEncoding<K>>(k: &K) -> Vec<u8> {
    k.as_ord_bytes().map_err(|e| e.to_string()).expect("HARNESS: key").into_owned()
}
fn header<C: Collection>(h: &bonsaidb_core::document::CollectionHeader<C::PrimaryKey>) -> Res<Header> {
    Header::try_from(h.clone()).or_fail("header of a mapping")
}
fn raw<V: SerializedView>(m: &ViewMappings<V>) -> Res<Vec<Serialized>>
where
    V::Key: KeyEncoding<V::Key>,
{
    m.iter()
        .map(|m| Ok(Serialized { source: header::<V::Collection>(&m.source)?, key: Bytes::from(enc(&m.key)), value: Bytes::from(V::serialize(&m.value).or_fail("value")?) }))
        .collect()
}
fn raw_groups<V: SerializedView>(m: &[MappedValue<V::Key, V::Value>]) -> Res<Vec<(Vec<u8>, Vec<u8>)>> {
    m.iter().map(|m| Ok((enc(&m.key), V::serialize(&m.value).or_fail("value")?))).collect()
}

/// What the mappings of a query with documents promise about the documents.
fn check_mapped<V: SerializedView, D>(what: &str, got: &MappedDocuments<D, V>, w: &World, v: V_, plain: impl Fn(&D) -> Res<OwnedDocument>) -> Res
where
    V::Key: PartialEq + std::fmt::Debug,
{
    let ids: std::collections::BTreeSet<_> = got.mappings.iter().map(|m| header::<V::Collection>(&m.source).map(|h| h.id)).collect::<Res<_>>()?;
    let docs: Vec<OwnedDocument> = got.documents.values().map(&plain).collect::<Res<_>>()?;
    check_docs(what, &docs, w.model.col(v.col()).iter().filter(|(i, _)| ids.contains(i)))?;
    ensure_eq!(got.len(), got.mappings.len(), "{what}: len");
    ensure_eq!(got.is_empty(), got.mappings.is_empty(), "{what}: is_empty");
    ensure!(got.get(got.len()).is_none(), "{what}: a mapping past the last");
    let mut n = 0;
    for (m, it) in got.mappings.iter().zip(got.iter()) {
        let d = plain(it.document)?;
        let of = header::<V::Collection>(&m.source)?;
        ensure!(*it.key == m.key && d.header == of, "{what}: mapping {n} of {of:?} is iterated with key {:?} and document {:?}", it.key, d.header);
        n += 1;
    }
    ensure_eq!(n, got.len(), "{what}: mappings iterated");
    Ok(())
}
use crate::fix::V as V_;

const POLICIES: [AccessPolicy; 3] = [AccessPolicy::UpdateBefore, AccessPolicy::NoUpdate, AccessPolicy::UpdateAfter];

/// The selected part of the recomputed view.
fn want<K: KeyEncoding<K> + AsRefStr>(w: &World, v: V_, form: &Form<K>, key: &Option<SerializedQueryKey>) -> Vec<Entry> {
    match form {
        Form::Prefix(p, _) => w.model.view(v).into_iter().filter(|(k, _)| k.starts_with(p.text().as_bytes())).collect(),
        _ => w.model.selected(v, key),
    }
}
/// Keys which can be prefixes.
trait AsRefStr {
    const PREFIX: bool = false;
    fn text(&self) -> &str {
        unreachable!("HARNESS: prefix")
    }
}
impl AsRefStr for String {
    const PREFIX: bool = true;
    fn text(&self) -> &str {
        self
    }
}
impl AsRefStr for Option<u64> {}
impl AsRefStr for u32 {}
impl AsRefStr for (String, u32) {}

/// Applies order, limit and policy, before and after the key was chosen.
macro_rules! options {
    ($v:expr, $o:expr) => {{
        let v = $v;
        let v = match $o.1 {
            Sort::Descending => v.descending(),
            Sort::Ascending if $o.0 => v.ascending(),
            Sort::Ascending => v,
        };
        let v = if let Some(l) = $o.2 { v.limit(l) } else { v };
        v.with_access_policy($o.3)
    }};
}
/// The given way of choosing keys on a view, then what to do with it.
macro_rules! by_form {
    ($base:expr, $k:ty, $form:expr, $opts:expr, $early:expr, |$v:ident| $end:expr, [$($prefix:tt)*]) => {{
        macro_rules! end {
            ($q:expr) => {{
                if $early {
                    let $v = $q;
                    $end
                } else {
                    let $v = options!($q, $opts);
                    $end
                }
            }};
        }
        macro_rules! base {
            () => {
                if $early { options!($base, $opts) } else { $base }
            };
        }
        match $form {
            Form::All => end!(base!()),
            Form::Key(k) => end!(base!().with_key(k)),
            Form::Keys(ks) => end!(base!().with_keys(ks)),
            Form::Range(r, borrowed) => {
                use Bound::{Excluded, Included, Unbounded};
                match (&r.start, &r.end) {
                    (Included(a), Excluded(b)) if *borrowed => end!(base!().with_key_range::<$k, _>(&(a..b))),
                    (Included(a), Excluded(b)) => end!(base!().with_key_range::<$k, _>(a.clone()..b.clone())),
                    (Included(a), Included(b)) if *borrowed => end!(base!().with_key_range::<$k, _>(&(a..=b))),
                    (Included(a), Included(b)) => end!(base!().with_key_range::<$k, _>(a.clone()..=b.clone())),
                    (Included(a), Unbounded) if *borrowed => end!(base!().with_key_range::<$k, _>(&(a..))),
                    (Included(a), Unbounded) => end!(base!().with_key_range::<$k, _>(a.clone()..)),
                    (Unbounded, Excluded(b)) if *borrowed => end!(base!().with_key_range::<$k, _>(&(..b))),
                    (Unbounded, Excluded(b)) => end!(base!().with_key_range::<$k, _>(..b.clone())),
                    (Unbounded, Included(b)) if *borrowed => end!(base!().with_key_range::<$k, _>(..=b)),
                    (Unbounded, Unbounded) => end!(base!().with_key_range::<$k, _>(..)),
                    _ if *borrowed => end!(base!().with_key_range::<$k, _>(RangeRef::borrowed(r.map_ref(|k| k)))),
                    _ => end!(base!().with_key_range::<$k, _>(RangeRef::owned(r.clone()))),
                }
            }
            Form::Prefix(p, st) => by_prefix!([$($prefix)*] base, end, p, st),
        }
    }};
}
macro_rules! by_prefix {
    ([yes] $base:ident, $end:ident, $p:expr, $st:expr) => {
        if *$st { $end!($base!().with_key_prefix($p.as_str())) } else { $end!($base!().with_key_prefix($p)) }
    };
    ([no] $base:ident, $end:ident, $p:expr, $st:expr) => {{
        let _ = ($p, $st);
        unreachable!("HARNESS: prefix")
    }};
}

macro_rules! view_fn {
    ($name:ident, $view:ty, $k:ty, $v:expr, $prefix:tt, $docs:tt) => {
        fn $name(s: &mut Source, w: &mut World, ctx: &mut Ctx) -> Res {
            let v: V_ = $v;
            let mut key = gen_key(s, w, v);
            let mut form: Form<$k> = Form::of(&key, s);
            if <$k as AsRefStr>::PREFIX && s.chance(1, 4) {
                let present: Vec<Vec<u8>> = w.model.view(v).into_keys().collect();
                let mut k = if !present.is_empty() && s.chance(4, 5) { s.pick(&present).clone() } else { v.gen_key(s) };
                // any prefix of it which ends at a character
                let cuts: Vec<usize> = (0..=k.len()).filter(|i| std::str::from_utf8(&k[..*i]).is_ok()).collect();
                k.truncate(*s.pick(&cuts));
                key = None;
                form = Form::Prefix(<$k as Key>::from_ord_bytes(ByteSource::Owned(k)).map_err(|e| e.to_string()).expect("HARNESS: key"), s.bool());
                ctx.count("prefixes");
            }
            let (order, limit) = (gen_sort(s), gen_limit(s));
            let policy = POLICIES[s.weighted(&[4, 1, 1])];
            let (early, explicit, asy) = (s.bool(), s.bool(), s.bool());
            let kind = s.weighted(&[4, 3, 3, 3, 3, 1]);
            let what = format!("{} view {v:?} kind {kind} {form:?} {order:?} limit {limit:?} {policy:?} {}", if asy { "async" } else { "sync" }, if early { "(options before the keys)" } else { "" });
            ctx.log(what.clone());
            // Under the other policies the result is only known if the view
            // is up to date.
            if !matches!(policy, AccessPolicy::UpdateBefore) {
                w.query(v, None, Sort::Ascending, None, AccessPolicy::UpdateBefore, "before")?;
            }
            let entries = want(w, v, &form, &key);
            let n: usize = entries.iter().map(|e| e.1.len()).sum();
            if n > 0 {
                ctx.count("view_reads_with_results");
                if w.model.view(v).into_values().map(|m| m.len()).sum::<usize>() > n {
                    ctx.count("queries_for_a_proper_part");
                    ctx.nontrivial();
                }
            }
            let opts = (explicit, order, limit, policy);
            let db = w.db().clone();
            let adb = db.to_async_with_runtime(rt().handle().clone());
            macro_rules! q {
                (|$x:ident| $e:expr) => {
                    if asy {
                        rt().block_on(by_form!(AsyncConnection::view::<$view>(&adb), $k, &form, opts, early, |$x| Box::pin($e) as std::pin::Pin<Box<dyn std::future::Future<Output = _> + '_>>, [$prefix]))
                    } else {
                        by_form!(Connection::view::<$view>(&db), $k, &form, opts, early, |$x| $e, [$prefix])
                    }
                };
            }
            w.touched(v, policy);
            match kind {
                0 => {
                    let got = q!(|x| x.query()).or_fail(&what)?;
                    check_mappings(&what, &raw::<$view>(&got)?, &entries, order, limit)?;
                }
                1 => {
                    let got = q!(|x| x.query_with_docs()).or_fail(&what)?;
                    check_mappings(&what, &raw::<$view>(&got.mappings)?, &entries, order, limit)?;
                    check_mapped::<$view, _>(&what, &got, w, v, |d| Ok(d.clone()))?;
                }
                2 => {
                    view_docs!($docs, {
                        let got = q!(|x| x.query_with_collection_docs()).or_fail(&what)?;
                        check_mappings(&what, &raw::<$view>(&got.mappings)?, &entries, order, limit)?;
                        check_mapped::<$view, _>(&what, &got, w, v, |d: &CollectionDocument<Item>| {
                            Ok(OwnedDocument { header: Header::try_from(d.header.clone()).or_fail("header")?, contents: Bytes::from(<Item as SerializedCollection>::serialize(&d.contents).or_fail("contents")?) })
                        })?;
                        ctx.count("queries_with_collection_documents");
                    });
                }
                3 | 4 if !v.reduces() => {
                    let got = q!(|x| x.reduce());
                    ensure!(got.is_err(), "{what}: a view without a reduction reduced to {got:?}");
                }
                3 => {
                    let got = <$view as SerializedView>::serialize(&q!(|x| x.reduce()).or_fail(&what)?).or_fail("value")?;
                    let all: Vec<Vec<u8>> = entries.into_iter().flat_map(|(_, m)| m.into_iter().map(|m| m.1)).collect();
                    ensure_eq!(got, v.reduce(&all), "{what}");
                }
                4 => {
                    let mut got = raw_groups::<$view>(&q!(|x| x.reduce_grouped()).or_fail(&what)?)?;
                    let mut want: Vec<(Vec<u8>, Vec<u8>)> = entries.into_iter().map(|(k, m)| (k, v.reduce(&m.into_iter().map(|m| m.1).collect::<Vec<_>>()))).collect();
                    if matches!(form, Form::Keys(_)) {
                        got.sort();
                        want.sort();
                    }
                    ensure_eq!(got, want, "{what}");
                }
                _ => {
                    let ids: std::collections::BTreeSet<_> = entries.into_iter().flat_map(|(_, m)| m.into_iter().map(|m| m.0.id)).collect();
                    let got = q!(|x| x.delete_docs()).or_fail(&what)?;
                    ensure_eq!(got, ids.len() as u64, "{what}: number of documents deleted");
                    w.deleted(v, ids);
                    w.check_all("after deleting through a view")?;
                    ctx.count("delete_docs");
                }
            }
            // The key types and their serialized form stand for each other.
            if let Some(k) = &key {
                let typed: QueryKey<'static, $k> = k.deserialized().or_fail("deserialized")?;
                let back = typed.serialized().or_fail("serialized")?;
                ensure_eq!(format!("{back:?}"), format!("{k:?}"), "{what}: query key after deserialized() and serialized()");
            }
            Ok(())
        }
    };
}
macro_rules! view_docs {
    (yes, $e:block) => {
        $e
    };
    (no, $e:block) => {};
}
view_fn!(by_tag, ByTag, String, V_::Tag, yes, yes);
view_fn!(by_parent, ByParent, Option<u64>, V_::Parent, no, yes);
view_fn!(by_n, ByN, u32, V_::N, no, yes);
view_fn!(by_pair, ByPair, (String, u32), V_::Pair, no, yes);
view_fn!(by_text, ByText, String, V_::Text, yes, yes);
view_fn!(by_len, RawByLen, u32, V_::RawLen, no, no);

/// Characters at the edges of what follows what.
const EDGES: [char; 7] = ['a', 'b', '\u{7f}', '\u{ff}', '\u{d7ff}', '\u{e000}', '\u{10ffff}'];
fn edge_word(s: &mut Source) -> String {
    (0..s.draw(3)).map(|_| *s.pick(&EDGES)).collect()
}

pub fn typed(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut w = World::new()?;
    let n = 4 + s.draw(24);
    for _ in 0..n {
        match s.weighted(&[4, 2, 14]) {
            0 => {
                let many = if s.chance(1, 8) { 20 } else { 4 };
                let ops: Vec<Op> = (0..1 + s.draw(many))
                    .map(|_| {
                        let mut i = gen_item(s);
                        if s.bool() {
                            i.tags = (0..s.draw(3)).map(|_| edge_word(s)).collect();
                        }
                        if s.chance(1, 3) {
                            i.text = format!("u{}", edge_word(s));
                        }
                        Op::Insert { col: Col::Item, id: None, contents: item_bytes(&i) }
                    })
                    .collect();
                ctx.log(format!("{} documents", ops.len()));
                for o in ops {
                    // some are refused by the unique view
                    w.tx(&[o], Via::Transaction, ctx)?;
                }
            }
            1 => {
                let ops = gen_ops(s, &w, 4);
                ctx.log(format!("transaction [{}]", ops.iter().map(Op::show).collect::<Vec<_>>().join("; ")));
                w.tx(&ops, Via::Transaction, ctx)?;
            }
            _ => match s.weighted(&[4, 2, 3, 2, 3, 2]) {
                0 => by_tag(s, &mut w, ctx)?,
                1 => by_parent(s, &mut w, ctx)?,
                2 => by_n(s, &mut w, ctx)?,
                3 => by_pair(s, &mut w, ctx)?,
                4 => by_text(s, &mut w, ctx)?,
                _ => by_len(s, &mut w, ctx)?,
            },
        }
    }
    w.check_all("at the end")?;
    w.check_views("at the end")?;
    Ok(())
}
